"""C17: custom conversion steps see every value, in order, and compose."""
from __future__ import annotations

import datetime as dt
import random
from collections.abc import MutableSet

import graphs as G
import refv8 as V
import wire as W
from core import configure, Violation, check, exc_site, short

from v8serialize import (
    Decoder,
    DecodeV8SerializeError,
    EncodeV8SerializeError,
    Encoder,
    SerializationFeature,
    UnhandledTagDecodeV8SerializeError,
    UnhandledValueEncodeV8SerializeError,
    V8SerializeError,
    dumps,
    loads,
)
from v8serialize.constants import SerializationTag as T
from v8serialize.decode import TagReader, TagReaderRegistry
from v8serialize.encode import TagWriter, serialize_object_references
from v8serialize.jstypes._v8 import V8SharedObjectReference
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSError,
    JSErrorData,
    JSFloat16Array,
    JSHole,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
    JSTypedArray,
    JSUint8Array,
    JSUndefined,
)

PROP = "C17"
RUNS = {"quick": 80000, "thorough": 3000000}
RULE = (
    "scenario = a value graph with values only custom steps know, a pipeline of up to 6 custom "
    "encode steps around the default ones in seeded order (each passes, substitutes, writes itself, "
    "re-enters, calls the codec again, refuses, fails or catches a refusal, per seeded value), and a "
    "pipeline of decode steps likewise plus seeded TagReader options; calls, order, results and "
    "errors are compared with a reference model of the pipeline and a reference reader; non-trivial "
    "when at least one step did something other than pass; distinct by trace digest"
)
STATE_MEASURE = "pipeline shape x actions taken x kinds of value"
COMPONENTS = {
    "v8serialize encode/decode steps, TagWriter, TagReader": "real",
    "custom steps": "scripted from the scenario",
    "pipeline": "compared with a model",
    "reader of the produced data": "model (sim/refv8.py)",
}
ASSUMPTIONS = [
    "a step that catches an error after part of its value was written gets no rollback",
    "values a decode step returns in place of a container do not change what back references to it yield",
]
ALL = G.all_features()
REL = V.RELEASES["13.x"]
STEP0 = 64  # depth at which the model gives up

LITS = ["int", "int", "flt", "str", "str", "none", "true", "false", "undef", "big", "date", "bytes", "re", "prim"]
CONTS = ["list", "list", "tuple", "dict", "obj", "obj", "arr", "sp", "map", "mset", "err", "ba", "ab", "view", "f16"]
KINDS = ["str", "str", "int", "flt", "none", "undef", "bool"]
KEYS = ["a", "b", "key", "é", "\u4e2d", "", 0, 1, 7, 300, 2**31, 2**32 - 1, "x" * 40]


def gen(r, i, tier):
    n = r.choice([1, 2, 3, 5, 8, 12])
    p_mark = r.choice([0, 0.15, 0.4])
    nodes = []
    for j in range(n):
        c = lambda: r.randrange(n) if r.random() < 0.25 else min(n - 1, j + 1 + r.randrange(3))  # noqa: E731
        w = r.choice([0, 1, 2, 2, 3, 5])
        if j and r.random() < p_mark:
            nodes.append(["mark"])
            continue
        if j and r.random() < 0.35:
            k = r.choice(LITS)
            nodes.append([k, r.choice([0, 1, -1, 5, 999, 1000, 5000, 2**31, -(2**31)]) if k == "int" else
                          r.choice(["", "a", "é", "\u4e2d\U0001f600", "b" * 130]) if k == "str" else r.randrange(100)])
            continue
        k = r.choice(CONTS if j else CONTS[:11])
        if k in ("list", "tuple", "mset"):
            nodes.append([k, [c() for _ in range(w)]])
        elif k in ("dict", "map"):
            nodes.append([k, [[c(), c()] for _ in range(w)]])
        elif k == "obj":
            nodes.append([k, [[r.choice(KEYS), c()] for _ in range(w)]])
        elif k == "arr":
            nodes.append([k, [c() if r.random() < 0.85 else -1 for _ in range(w)],
                          [[r.choice(["a", "b", ""]), c()] for _ in range(r.choice([0, 0, 1, 2]))]])
        elif k == "sp":
            nodes.append([k, r.choice([2**15, 2**20, 2**32 - 1]), [[r.randrange(300), c()] for _ in range(w)],
                          [["p", c()] for _ in range(r.randrange(2))]])
        elif k == "err":
            nodes.append([k, r.randrange(2), r.randrange(6), r.choice([None, "m"]), r.choice([None, "s"]),
                          r.choice([None, c()])])
        elif k in ("ba", "ab"):
            nodes.append([k, r.randrange(5), r.choice([None, 8])])
        else:
            nodes.append([k, c(), r.randrange(3)])
    pre, mid, post = r.choice([0, 1, 1, 2]), r.choice([0, 0, 1, 2]), r.choice([0, 0, 0, 1, 2])
    steps = ["rule"] * pre + (["refs"] if r.random() < 0.9 else []) + ["rule"] * mid
    steps += (["writer"] if r.random() < 0.95 else []) + ["rule"] * post
    m = pre + mid + post
    targets, types = [], []
    for _ in range(r.choice([0, 1, 2, 4, 8]) if m else 0):
        targets.append([r.randrange(m), r.randrange(n), gen_action(r, n)])
    for j, nd in enumerate(nodes):
        if nd[0] == "mark" and m and r.random() < 0.85:
            targets.append([r.randrange(m), j, gen_action(r, n)])
    for _ in range(r.choice([0, 0, 1, 2]) if m else 0):
        types.append([r.randrange(m), r.choice(KINDS), r.choice(["sub", "sub", "write", "enc", "raise", "nest"])])
    for _ in range(r.choice([0, 0, 1]) if m else 0):
        types.append([r.randrange(m), r.choice(["str", "str", "int", "flt"]), ["try", r.randrange(n)]])
    if r.random() < 0.4:
        return {"src": {**W.gen_source(r), "w": "v8", "g": G.gen_graph(r, leaf_kinds=W.LEAVES, comps=W.COMPS)},
                "dec": gen_decode(r)}
    return {
        "nodes": nodes, "steps": steps, "targets": targets, "types": types,
        "style": r.getrandbits(8), "api": r.randrange(3), "f16": r.randrange(2), "twice": r.randrange(2),
        "dec": gen_decode(r),
    }


def gen_action(r, n):
    k = r.choice(["sub", "sub", "sub", "enc", "const", "const", "obj", "arr", "map", "mset", "host", "host",
                  "raise", "catch", "catch", "nest", "refuse"])
    if k in ("sub", "enc", "catch", "nest"):
        return [k, r.randrange(n)]
    if k in ("const", "raise", "refuse"):
        return [k, r.randrange(8)]
    return [k, [r.randrange(n) for _ in range(r.choice([0, 1, 2, 3]))]]


def gen_decode(r):
    k = r.choice([0, 1, 1, 2, 3])
    return {
        "steps": k,
        "acts": [[r.randrange(k), r.randrange(40), r.choice(["post", "post", "replace", "replace", "handle", "handle",
                                                             "retag", "raise", "nest", "catch", "refuse"])]
                 for _ in range(r.choice([0, 1, 2, 4, 8]))] if k else [],
        "reader": r.choice(["tag", "tag", "tag", "opts", "opts", "mini", "mini_tag", "tag_after"]),
        "opts": r.getrandbits(11),
        "style": r.getrandbits(8),
        "api": r.randrange(2),
    }


# ---------------------------------------------------------------------------
# values


class Mark:
    """A type the library knows nothing about."""

    __slots__ = ("j",)

    def __init__(self, j):
        self.j = j

    def __repr__(self):
        return f"Mark({self.j})"


class Boom(Exception):
    pass


class Give(Exception):
    """The scenario leaves what the property is about: nothing to compare."""


def build(nodes):
    n = len(nodes)
    vals: list = [None] * n
    fill = []
    for j in reversed(range(n)):
        nd = nodes[j]
        k = nd[0]
        if k == "mark":
            v = Mark(j)
        elif k == "int":
            v = nd[1]
        elif k == "flt":
            v = nd[1] + 0.5
        elif k == "str":
            v = nd[1]
        elif k == "none":
            v = None
        elif k in ("true", "false"):
            v = k == "true"
        elif k == "undef":
            v = JSUndefined
        elif k == "big":
            v = 2**60 + nd[1]
        elif k == "date":
            v = dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=j * 1000 + nd[1])
        elif k == "bytes":
            v = bytes([j % 256, j // 256, nd[1]])
        elif k == "re":
            v = JSRegExp(f"r{j}x{nd[1]}")
        elif k == "prim":
            v = JSPrimitiveObject(j + 0.25)
        elif k == "tuple":
            v = (j, *(vals[c % n] if c % n > j else 0 for c in nd[1]))
        elif k == "ba":
            v = bytearray(bytes([j % 256]) * nd[1])
        elif k == "ab":
            v = JSArrayBuffer(bytes([j % 256]) * nd[1], max_byte_length=None if nd[2] is None else nd[1] + nd[2])
        elif k in ("view", "f16"):
            b = vals[nd[1] % n] if nd[1] % n > j else None
            if not isinstance(b, (bytearray, JSArrayBuffer)):
                b = JSArrayBuffer(bytes([j % 256]) * 6)
            v = (JSUint8Array if k == "view" else JSFloat16Array)(b)
        else:
            v = {"list": list, "dict": dict, "obj": JSObject, "arr": JSArray, "sp": JSArray, "map": JSMap,
                 "mset": JSSet}.get(k, lambda: None)()
            if k == "err":
                cls = JSError if nd[1] else JSErrorData
                v = cls(nd[3], name=G.ERR_NAMES[nd[2] % 6], stack=nd[4])
            fill.append(j)
        vals[j] = v
    for j in reversed(fill):
        nd, v = nodes[j], vals[j]
        k = nd[0]
        at = lambda c: vals[c % n]  # noqa: E731
        if k == "list":
            v.extend(at(c) for c in nd[1])
        elif k == "dict":
            for a, b in nd[1]:
                try:
                    hash(at(a))
                except TypeError:
                    continue
                if not isinstance(at(a), (tuple, JSTypedArray, JSPrimitiveObject)):
                    v[at(a)] = at(b)
        elif k == "map":
            for a, b in nd[1]:
                v[at(a)] = at(b)
        elif k == "mset":
            for a in nd[1]:
                v.add(at(a))
        elif k == "obj":
            for a, b in nd[1]:
                v[a] = at(b)
        elif k == "arr":
            holes = sum(c >= 0 for c in nd[1])  # few enough to be written densely
            for c in nd[1]:
                holes -= c < 0
                if c >= 0 or holes >= 0:
                    v.array.append(at(c) if c >= 0 else JSHole)
            for a, b in nd[2]:
                v[a] = at(b)
        elif k == "sp":
            v[nd[1] - 1] = JSHole
            for a, b in nd[2]:
                v[a] = at(b)
            for a, b in nd[3]:
                v[a] = at(b)
        elif k == "err":
            v.cause = None if nd[5] is None else at(nd[5])
    return vals


def lit_kind(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "flt"
    if isinstance(v, str):
        return "str"
    if v is None:
        return "none"
    if v is JSUndefined:
        return "undef"
    return None


def lit_sub(k, v, i):
    """What a step with a rule for a kind of primitive makes of one."""
    if k == "str":
        return f"{v}~{i}"
    if k == "int":
        return v if abs(v) < 1000 else f"n{i}.{v}"
    if k == "flt":
        return v + 1000.0
    if k == "none":
        return JSUndefined
    if k == "undef":
        return None
    return 1.5 if v else 2.5


CONSTS = [
    (lambda s: s.write_uint32(7), 7.0),
    (lambda s: s.write_int32(-7), -7.0),
    (lambda s: s.write_double(0.25), 0.25),
    (lambda s: s.write_string_utf8("cé"), "cé"),
    (lambda s: s.write_string_onebyte("cé"), "cé"),
    (lambda s: s.write_string_twobyte("c\u4e2d"), "c\u4e2d"),
    (lambda s: s.write_constant(T.kUndefined), JSUndefined),
    (lambda s: s.write_constant(T.kTrue), True),
]


# ---------------------------------------------------------------------------
# the model of an encode pipeline


class Node:
    __slots__ = ("kind", "a", "open")

    def __init__(self, kind, a=None):
        self.kind = kind
        self.a = a
        self.open = False


class Refused(Exception):
    def __init__(self, value):
        self.value = value


class KeyRefused(Exception):
    """A value which can't be a property key is written as one."""


class Model:
    """What the documented rules make of a value and a pipeline."""

    def __init__(self, p):
        self.p = p
        self.log: list = []
        self.memo: dict = {}
        self.keep: list = []
        self.written = 0
        self.depth = 0
        self.key = False

    def offer_key(self, v):
        self.key = True
        try:
            return self.offer(v)
        finally:
            self.key = False

    def new(self, kind, v=None, a=None):
        if self.key and (kind != "prim" or not isinstance(a, (str, float))):
            raise KeyRefused
        x = Node(kind, a)
        self.written += 1
        if v is not None:
            self.memo[key_of(v)] = x
            self.keep.append(v)
        return x

    def offer(self, v, i=0):
        self.depth += 1
        if self.depth > STEP0 or len(self.log) > 1500:
            raise Give
        try:
            return self._offer(v, i)
        finally:
            self.depth -= 1

    def _offer(self, v, i):
        steps = self.p.steps
        if i >= len(steps):
            raise Refused(v)
        st, rule = steps[i]
        if st == "refs":
            x = self.memo.get(key_of(v)) if lit_kind(v) is None and v is not JSHole else None
            if x is not None:
                if x.kind == "host" and x.open:
                    raise Give
                if self.key:
                    raise KeyRefused
                self.written += 1
                return x
            return self.offer(v, i + 1)
        if st == "writer":
            return self.write(v, i)
        if v is JSHole:
            return self.offer(v, i + 1)
        self.log.append((rule, v))
        act = self.p.action(rule, v)
        if act is None:
            return self.offer(v, i + 1)
        k, a = act
        at = self.p.vals
        if k == "nest":
            return self.offer(v, i + 1)
        if k == "sub":
            return self.offer(at[a] if isinstance(a, int) else a[0], i + 1)
        if k == "enc":
            return self.offer(at[a] if isinstance(a, int) else a[0], 0)
        if k == "raise":
            raise self.p.booms[a % len(self.p.booms)]
        if k == "refuse":
            raise Refused(v)
        if k == "lit":
            return self.new("prim", None, a)
        if k == "const":
            return self.new("prim", None, CONSTS[a][1])
        if k == "try":
            before = self.written
            try:
                return self.offer(at[a], i + 1)
            except (KeyRefused, Refused) as e:
                if self.written != before:
                    raise Give from None
                self.log.append(("caught", type(e) is KeyRefused))
                return self.offer(v, i + 1)
        if k == "catch":
            before = self.written
            try:
                return self.offer(v, i + 1)
            except (Boom, Refused) as e:
                if self.written != before:
                    raise Give from None
                self.log.append(("caught", e if isinstance(e, Boom) else e.value))
                return self.offer(at[a], i + 1)
        kids = [at[c] for c in a]
        if k == "obj":
            x = self.new("object", v, [])
            for j, c in enumerate(kids):
                x.a.append((self.offer_key(f"k{j}"), self.offer(c)))
        elif k == "arr":
            x = self.new("array", v, [len(kids), {}, []])
            for j, c in enumerate(kids):
                x.a[1][j] = self.offer(c)
        elif k == "map":
            x = self.new("map", v, [])
            for j, c in enumerate(kids):
                ck = self.offer(j + 0.5)
                put(x.a, ck, self.offer(c))
        elif k == "mset":
            x = self.new("set", v, [])
            for c in kids:
                put(x.a, self.offer(c), None)
        else:
            x = self.new("host", v, [])
            x.open = True
            for c in kids:
                x.a.append(self.offer(c))
            x.open = False
        return x

    def write(self, v, i):
        k = lit_kind(v)
        if k == "int":
            if abs(v) < 2**53:
                return self.new("prim", None, float(v))
            return self.new("prim", None, str(v) if self.key else v)
        if k is not None:
            return self.new("prim", None, v)
        if v is JSHole:
            return self.new("hole")
        if isinstance(v, dt.datetime):
            return self.new("date", v, v.timestamp() * 1000)
        if isinstance(v, (bytes, bytearray)):
            return self.new("buffer", v, [bytes(v), None])
        if isinstance(v, JSArrayBuffer):
            with v.data as d:
                return self.new("buffer", v, [bytes(d), v.max_byte_length if v.resizable else None])
        if isinstance(v, JSTypedArray):
            if isinstance(v, JSFloat16Array) and not self.p.f16:
                return self.offer(v, i + 1)
            b = self.offer(v.backing_buffer)
            if b.kind != "buffer":
                raise Give
            return self.new("view", v, ["B" if isinstance(v, JSUint8Array) else "h", b])
        if isinstance(v, JSRegExp):
            return self.new("regexp", v, v.source)
        if isinstance(v, JSPrimitiveObject):
            return self.new("wrapper", v, v.value)
        if isinstance(v, (list, tuple)):
            x = self.new("array", v, [len(v), {}, []])
            for j, c in enumerate(v):
                x.a[1][j] = self.offer(c)
            return x
        if isinstance(v, JSArray):
            x = self.new("array", v, [len(v.array), {}, []])
            if len(v.array) < 1000:
                for j, c in enumerate(v.array):
                    y = self.offer(c)
                    if c is not JSHole:
                        x.a[1][j] = y
                for a, c in v.properties.items():
                    x.a[2].append((self.offer_key(a), self.offer(c)))
            else:
                for a, c in v.items():
                    x.a[2].append((self.offer_key(a), self.offer(c)))
            return x
        if isinstance(v, JSObject):
            x = self.new("object", v, [])
            for a, c in v.items():
                x.a.append((self.offer_key(a), self.offer(c)))
            return x
        if isinstance(v, (dict, JSMap)):
            x = self.new("map", v, [])
            for a, c in v.items():
                ck = self.offer(a)
                put(x.a, ck, self.offer(c))
            return x
        if isinstance(v, JSSet):
            x = self.new("set", v, [])
            for a in v:
                put(x.a, self.offer(a), None)
            return x
        if isinstance(v, (JSError, JSErrorData)):
            x = self.new("error", v, [v.name, v.message, v.stack, None])
            if v.cause is not None:
                x.a[3] = self.offer(v.cause)
            return x
        return self.offer(v, i + 1)


def key_of(v):
    """Equal immutable values may be written once."""
    if isinstance(v, bytes):
        return ("bytes", v)
    return id(v)


def nkey(x: Node):
    if x.kind != "prim":
        return id(x)
    v = x.a
    if isinstance(v, bool) or v is None or v is JSUndefined:
        return ("c", str(v))
    return (type(v).__name__, v)


def put(entries, k, v):
    for e in entries:
        if nkey(e[0]) == nkey(k):
            e[1] = v
            return
    entries.append([k, v])


class Match:
    """Compares the model's result with what a V8 reader makes of the bytes."""

    def __init__(self):
        self.fwd: dict = {}
        self.back: dict = {}

    def fail(self, path, want, got):
        raise Violation("result", f"at {path or 'root'}: expected {want}, got {got!r:.200}")

    def run(self, x, v):
        todo = [(x, v, "")]
        while todo:
            x, v, path = todo.pop()
            k = x.kind
            if k == "prim":
                self.prim(x.a, v, path)
                continue
            if x in self.fwd:
                if self.fwd[x] is not v:
                    self.fail(path, f"the same {k} as before", v)
                continue
            self.fwd[x] = v
            if self.back.setdefault(id(v), x) is not x:
                self.fail(path, f"another {k}", v)
            if v.kind != {"buffer": "arraybuffer"}.get(k, k):
                self.fail(path, k, v)
            if k == "date":
                if abs(v.ms - x.a) > 1:
                    self.fail(path, x.a, v)
            elif k == "buffer":
                if v.data != x.a[0] or v.max != x.a[1]:
                    self.fail(path, x.a, v)
            elif k == "view":
                if v.t != x.a[0]:
                    self.fail(path, x.a, v)
                todo.append((x.a[1], v.buf, path + ".buffer"))
            elif k == "regexp":
                if v.src != x.a:
                    self.fail(path, x.a, v)
            elif k == "wrapper":
                self.prim(x.a, v.p, path)
            elif k == "array":
                todo += self.props([(Node("prim", j), c) for j, c in x.a[1].items()] + x.a[2], v, path)
                if v.length != max([x.a[0], *(k + 1 for k in v.props if isinstance(k, int))]):
                    self.fail(path, f"array of length {x.a[0]}", v)
            elif k == "object":
                todo += self.props(x.a, v, path)
            elif k == "map":
                if len(v.entries) != len(x.a):
                    self.fail(path, f"{len(x.a)} entries", v.entries)
                for j, ((a, b), (c, d)) in enumerate(zip(x.a, v.entries)):
                    todo += [(a, c, f"{path}.key{j}"), (b, d, f"{path}.val{j}")]
            elif k == "set":
                if len(v.values) != len(x.a):
                    self.fail(path, f"{len(x.a)} members", v.values)
                for j, ((a, _), c) in enumerate(zip(x.a, v.values)):
                    todo.append((a, c, f"{path}.member{j}"))
            elif k == "error":
                if (v.name, v.message, v.stack) != tuple(x.a[:3]):
                    self.fail(path, x.a[:3], v)
                if (v.cause is None) != (x.a[3] is None):
                    self.fail(path, f"cause {x.a[3]}", v.cause)
                if x.a[3] is not None:
                    todo.append((x.a[3], v.cause, path + ".cause"))
            elif k == "host":
                if len(v.items) != len(x.a):
                    self.fail(path, f"{len(x.a)} items", v)
                for j, (a, c) in enumerate(zip(x.a, v.items)):
                    todo.append((a, c, f"{path}.item{j}"))

    def prim(self, a, v, path):
        if isinstance(a, bool):
            ok = v.kind == "boolean" and v.v is a
        elif isinstance(a, float):
            ok = v.kind == "number" and v.v == a
        elif isinstance(a, int):
            ok = v.kind in ("bigint", "number") and v.v == a
        elif isinstance(a, str):
            ok = v.kind == "string" and v.v == a
        elif a is None:
            ok = v.kind == "null"
        else:
            ok = v.kind == "undefined"
        if not ok:
            self.fail(path, repr(a)[:100], v)

    def props(self, want, v, path):
        table: dict = {}
        for k, x in want:
            a = k.a
            if isinstance(a, float):
                a = V.js_number_key(a)
            elif isinstance(a, str):
                a = G.norm_key(a)
            table[a] = x
        want = sorted((k for k in table if isinstance(k, int))) + [k for k in table if isinstance(k, str)]
        got = sorted((k for k in v.props if isinstance(k, int))) + [k for k in v.props if isinstance(k, str)]
        if want != got:
            self.fail(path, f"properties {want!r:.150}", got)
        return [(table[k], v.props[k], f"{path}.{k}") for k in got]


# ---------------------------------------------------------------------------
# real pipelines


class Plan:
    """One encode pipeline, as the model and as the library's steps."""

    def __init__(self, s, env):
        self.env = env
        self.vals = build(s["nodes"])
        n = len(self.vals)
        self.f16 = bool(s["f16"])
        self.steps = []
        rule = 0
        for k in s["steps"]:
            self.steps.append((k, rule if k == "rule" else None))
            rule += k == "rule"
        self.rules = rule
        self.booms = [Boom(j) for j in range(3)]
        self.by_obj: dict = {}
        for st, c, (k, a) in s["targets"] if rule else []:
            v = self.vals[c % n]
            if s["nodes"][c % n][0] in LITS or isinstance(v, (JSTypedArray, JSArrayBuffer, bytearray, tuple)):
                continue
            if isinstance(a, list):
                a = [x % n for x in a]
            elif k in ("sub", "enc", "catch", "nest"):
                a %= n
            else:
                a %= len(CONSTS)
            self.by_obj.setdefault((st % rule, id(v)), (k, a))
        self.by_type = {}
        for st, kind, act in s["types"] if rule else []:
            self.by_type.setdefault((st % rule, kind), act)
        self.style = s["style"]
        self.log: list = []
        self.muted = 0
        self.nested = None
        self.taken: set = set()
        self.real = []
        for j, (k, rule) in enumerate(self.steps):
            if k == "refs":
                self.real.append(serialize_object_references)
            elif k == "writer":
                self.real.append(TagWriter())
            elif self.style >> (rule % 8) & 1:
                self.real.append(StepObject(self, rule))
            else:
                self.real.append(StepObject(self, rule).encode)
        f = ALL if self.f16 else ALL & ~SerializationFeature.Float16Array
        self.features = f
        self.enc = configure(Encoder, self.real, self.style >> 3, features=f)

    def action(self, rule, v):
        k = lit_kind(v)
        if k is None:
            return self.by_obj.get((rule, id(v)))
        act = self.by_type.get((rule, k))
        if act is None:
            return None
        if act == "raise":
            return ("raise", 1) if k in ("flt", "bool") else None
        if act == "nest":
            return ("nest", 0)
        if isinstance(act, list):
            return ("try", act[1] % len(self.vals))
        w = lit_sub(k, v, rule)
        if act == "enc":  # once only: the substitute is offered to every step again
            if k == "str" and v.endswith(f"~{rule}") or k in ("none", "undef") or k == "flt" and v >= 1000 or w is v:
                return None
            return ("enc", [w])
        if act == "write" and isinstance(w, (str, float)):
            return ("lit", w)
        return ("sub", [w])


class StepObject:
    def __init__(self, plan, rule):
        self.plan = plan
        self.rule = rule

    def encode(self, v, /, ctx, next):
        p = self.plan
        if v is JSHole or p.muted:
            return next(v)
        p.log.append((self.rule, v))
        act = p.action(self.rule, v)
        if act is None:
            return next(v)
        k, a = act
        p.taken.add(k)
        env = p.env
        at = p.vals
        if k == "nest":
            env.fault("nested_call")
            p.muted += 1
            try:
                p.enc.encode([at[a], "nested", at[a]])
            except (V8SerializeError, Boom):
                env.probe("nested_call_failed")
            except RecursionError:
                env.probe("nested_call_too_deep")
            finally:
                p.muted -= 1
            return next(v)
        if k == "sub":
            env.fault("substituted")
            return next(at[a] if isinstance(a, int) else a[0])
        if k == "enc":
            env.fault("reentered")
            return ctx.encode_object(at[a] if isinstance(a, int) else a[0])
        if k == "raise":
            env.fault("step_raises")
            raise p.booms[a % len(p.booms)]
        if k == "refuse":
            env.fault("step_refuses")
            raise UnhandledValueEncodeV8SerializeError("refused by a step", value=v)
        if k == "lit":
            env.fault("written_by_step")
            if isinstance(a, str):
                return ctx.stream.write_string_utf8(a)
            return ctx.stream.write_double(a)
        if k == "const":
            env.fault("written_by_step")
            return CONSTS[a][0](ctx.stream)
        if k == "try":
            try:
                return next(at[a])
            except EncodeV8SerializeError as e:
                env.fault("refusal_caught")
                p.log.append(("caught", type(e) is EncodeV8SerializeError))
            return next(v)
        if k == "catch":
            try:
                return next(v)
            except (Boom, UnhandledValueEncodeV8SerializeError) as e:
                env.fault("refusal_caught")
                p.log.append(("caught", e if isinstance(e, Boom) else e.value))
            return next(at[a])
        env.fault("written_by_step")
        kids = [at[c] for c in a]
        st = ctx.stream
        if k == "obj":
            return st.write_js_object([(f"k{j}", c) for j, c in enumerate(kids)], ctx=ctx, identity=v)
        if k == "arr":
            return st.write_js_array_dense(kids, ctx=ctx, identity=v)
        if k == "map":
            return st.write_jsmap(((j + 0.5, c) for j, c in enumerate(kids)), ctx=ctx, identity=v)
        if k == "mset":
            return st.write_jsset(kids, ctx=ctx, identity=v)

        def host(*, stream, value):
            check(value is v and stream is st, "host-args", "host object serializer called with other arguments")
            stream.write_uint32(len(kids), tag=None)
            for c in kids:
                ctx.encode_object(c)

        env.probe("host_objects")
        if p.style & 1:
            return st.write_host_object(v, serializer=HostSer(host))
        return st.write_host_object(v, serializer=host)


class HostSer:
    def __init__(self, f):
        self.serialize_host_object = f


def same(a, b):
    """The very value, or an interchangeable immutable one."""
    if a is b:
        return True
    return type(a) is type(b) and isinstance(
        a, (int, float, str, bytes, JSRegExp, dt.datetime, tuple, JSPrimitiveObject)) and a == b


def show(log):
    return [(i, short(v, 40)) for i, v in log]


# ---------------------------------------------------------------------------
# decoding: the reference reader, with steps


class Wrap:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k = k
        self.v = v


class Token:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class HostVal:
    def __init__(self, items):
        self.items = items


class RefReader(V.Reader):
    """The reference reader, following a plan of (item, step) -> action."""

    def __init__(self, data, plan, rel):
        super().__init__(data, rel)
        self.plan = plan
        self.items: list = []  # (tag, is a key)
        self.keys: set = set()
        self.key_next = False
        self.seen: list = []  # (step, item)
        self.doubles = 0
        self.wrapped = False

    def value(self):
        t = self.peek()
        n = len(self.items)
        self.items.append([t, self.key_next, self.p])
        self.key_next = False
        acts = []
        read = None
        for k in range(self.plan.nsteps if self.plan else 0):
            self.seen.append((k, n))
            a = self.plan.get(k, n)
            if a in ("raise", "refuse"):
                # a step before this one may be prepared for it
                while acts and acts[-1][1] != "catch":
                    acts.pop()
                if not acts:
                    raise StepRaises(a, n)
                acts.pop()
                a = "handle"
                k = "c"
            if a == "handle":
                read = super().value()
                acts.append((k, a))
                break
            if a is not None:
                acts.append((k, a))
        if read is None:
            read = self.reader_reads(t, n)
            if sum(a[1] == "retag" for a in acts) % 2:
                read = {"_": V.NULL, "0": V.UNDEF, "T": V.FALSE, "F": V.TRUE}.get(t, read)
        for k, a in reversed(acts):
            if read.kind == "wrapper" and read.p.kind == "string":
                read = read.p  # decoded as a plain string
            if a == "post":
                read = JS_add(read, f"~{k}") if read.kind == "string" else V.JS("wrap", k=k, v=read)
            elif a == "replace":
                read = V.JS("string", v=f"t{n}") if read.kind == "string" else V.JS("token", n=n)
            elif a == "handle":
                read = JS_add(read, "h") if read.kind == "string" else V.JS("wrap", k="h", v=read)
        return read

    def read_string(self):
        if not self.wrapped:
            return super().read_string()
        self.wrapped = False
        return V.Reader.value(self).v  # part of the wrapper object

    def reader_reads(self, t, n):
        if self.plan and not self.plan.reads(t):
            raise StepRaises("unhandled", n)
        self.doubles += t == "N"
        self.wrapped = t == "s"
        return super().value()

    def props(self, o, end):
        n = 0
        while True:
            t = self.peek()
            if t == end:
                self.tag()
                return n
            self.key_next = True
            k = self.value()
            key = G.norm_key(k.v) if k.kind == "string" else V.js_number_key(k.v)
            v = self.value()
            if key in o.props:
                raise Give
            o.props[key] = v
            n += 1
            if o.kind == "array" and isinstance(key, int):
                o.length = max(o.length, key + 1)

    def host(self):
        o = self.new("host", items=[])
        for _ in range(self.varint()):
            o.items.append(self.value())
        return o


def JS_add(js, s):
    return V.JS("string", v=js.v + s)


class StepRaises(Exception):
    def __init__(self, what, n):
        self.what = what
        self.n = n


LEAF_READ = {
    T.kDouble: lambda s: s.read_double(),
    T.kInt32: lambda s: s.read_int32(),
    T.kUint32: lambda s: s.read_uint32(),
    T.kBigInt: lambda s: s.read_bigint(),
    T.kOneByteString: lambda s: s.read_string_onebyte(),
    T.kTwoByteString: lambda s: s.read_string_twobyte(),
    T.kUtf8String: lambda s: s.read_string_utf8(),
}
LEAF_TAGS = {chr(t) for t in LEAF_READ}
RETAG = {T.kUndefined: T.kNull, T.kNull: T.kUndefined, T.kTrue: T.kFalse, T.kFalse: T.kTrue}


class DecodePlan:
    def __init__(self, d, data, env, rel):
        self.env = env
        self.nsteps = d["steps"]
        first = RefReader(data, None, rel)
        first.read()
        items = self.items = first.items
        self.acts: dict = {}
        self.doubles = 0
        for k, n, a in d["acts"] if items and self.nsteps else []:
            k %= self.nsteps
            n %= len(items)
            t, is_key, _ = items[n]
            text = t in '"cS'
            if is_key and not text:
                continue
            if a in ("handle", "catch") and t not in LEAF_TAGS:
                continue
            if a == "retag" and t not in "_0TF":
                continue
            if a == "catch" and any(x in ("raise", "refuse") and y == n and z < k for (z, y), x in self.acts.items()):
                continue
            self.acts.setdefault((k, n), a)
        self.reader = d["reader"]
        self.opts = d["opts"] if self.reader == "opts" else 0
        self.style = d["style"]
        self.api = d["api"]
        self.boom = Boom("decode")
        self.seen: list = []
        self.count = 0
        self.data = data
        self.muted = 0
        self.ctx = None

    def get(self, k, n):
        return self.acts.get((k, n))

    def reads(self, t):
        if self.reader == "mini":
            return t in LEAF_TAGS or t in "_0TF-oA;'^"
        return True

    # -- real steps

    def step(self, k):
        plan = self

        def decode(tag, /, ctx, next):
            if plan.muted or tag is T.kTheHole:
                return next(tag)
            if k == 0:
                n = plan.count
                plan.count += 1
                plan.stack.append(n)
            else:
                n = plan.stack[-1]
            try:
                plan.seen.append((k, n))
                t = plan.items[n][0] if n < len(plan.items) else None
                check(t == chr(tag) or plan.retagged(k, n), "offered", lambda: f"item {n}: step {k} saw {tag!r}, not {t!r}")
                return plan.act(k, n, tag, ctx, next)
            finally:
                if k == 0:
                    plan.stack.pop()

        class Obj:
            pass

        if self.style >> k & 1:
            o = Obj()
            o.decode = decode
            return o
        return decode

    def retagged(self, k, n):
        return any(self.get(j, n) == "retag" for j in range(k))

    def act(self, k, n, tag, ctx, next):
        env = self.env
        a = self.get(k, n)
        if a is None:
            return next(tag)
        if a == "nest":
            env.fault("nested_call")
            self.muted += 1
            try:
                self.dec.decodes(self.data)
            except V8SerializeError:
                env.probe("nested_call_failed")
            finally:
                self.muted -= 1
            return next(tag)
        if a == "retag":
            env.fault("retagged")
            return next(RETAG.get(tag, tag))
        if a == "raise":
            env.fault("step_raises")
            raise self.boom
        if a == "refuse":
            env.fault("step_refuses")
            raise UnhandledTagDecodeV8SerializeError("no", tag=tag, position=ctx.stream.pos, data=ctx.stream.data)
        if a == "handle":
            env.fault("read_by_step")
            return self.handled(LEAF_READ[tag](ctx.stream))
        if a == "catch":
            try:
                return next(tag)
            except (Boom, UnhandledTagDecodeV8SerializeError):
                env.fault("refusal_caught")
                return self.handled(LEAF_READ[tag](ctx.stream))
        v = next(tag)
        if a == "post":
            env.fault("result_substituted")
            return f"{v}~{k}" if isinstance(v, str) else Wrap(k, v)
        if a == "replace":
            env.fault("result_substituted")
            return f"t{n}" if isinstance(v, str) else Token(n)
        raise AssertionError(a)

    @staticmethod
    def handled(v):
        return v + "h" if isinstance(v, str) else Wrap("h", v)

    def host(self, *, stream):
        check(stream is self.ctx[-1].stream, "host-args", "another stream")
        ctx = self.ctx[-1]
        return HostVal([ctx.decode_object() for _ in range(stream.read_uint32())])

    def capture(self, tag, /, ctx, next):
        self.ctx.append(ctx)
        try:
            return next(tag)
        finally:
            self.ctx.pop()

    def mini(self, tag, /, ctx, next):
        """A small reader of its own, into plain Python collections."""
        s = ctx.stream
        if tag in LEAF_READ:
            return LEAF_READ[tag](s)
        if tag in MINI_CONST:
            return MINI_CONST[tag]
        if tag is T.kBeginJSObject:
            d = {}
            d.update(s.read_js_object(ctx, identity=d))
            return d
        if tag is T.kBeginDenseJSArray:
            a = MiniArray()
            a.fill(s.read_js_array_dense(ctx, identity=a))
            return a
        if tag is T.kBeginJSMap:
            m = MiniMap()
            for k, v in s.read_jsmap(ctx, identity=m):
                m[k] = v
            return m
        if tag is T.kBeginJSSet:
            m = MiniSet()
            for k in s.read_jsset(ctx, identity=m):
                m.add(k)
            return m
        if tag is T.kObjectReference:
            _, o = s.read_object_reference()
            if not isinstance(o, (JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer)):
                return o
            s.pos = self.before_reference(s)
        return next(tag)

    @staticmethod
    def before_reference(s):
        pos = s.pos - 1
        while s.data[pos - 1] & 128:
            pos -= 1
        return pos

    def build(self):
        self.stack: list = []
        self.ctx = []
        opts: dict = {"host_object_deserializer": HostDe(self.host) if self.style & 128 else self.host}
        o = self.opts
        if o & 1:
            opts["jsmap_type"] = MyMap
        if o & 2:
            opts["jsset_type"] = MySet
        if o & 1024:
            opts["jsset_type"] = StrictSet
        if o & 4:
            opts["js_object_type"] = MyObject
        if o & 8:
            opts["js_array_type"] = MyArray
        if o & 256:
            opts["js_object_type"] = dict
        if o & 512:
            opts["js_array_type"] = dict
        if o & 16:
            opts["js_constants"] = {T.kUndefined: UNDEF_MARK, T.kNull: NULL_MARK}
            self.constants = opts["js_constants"]
        if o & 32:
            opts["js_error_builder"] = lambda data: (MyError(data), data)
        if o & 64:
            opts["default_timezone"] = dt.timezone.utc
        loads_ok = self.api and not self.nsteps and not o & 128 and self.reader in ("tag", "opts") and \
            all(t != "\\" for t, *_ in self.items)
        if o & 128:
            reg = TagReaderRegistry()
            reg.register(T.kDouble, self.read_double)
            opts["tag_readers"] = reg
        steps = [self.step(k) for k in range(self.nsteps)]
        if self.reader == "mini":
            steps += [self.capture, self.mini]
        elif self.reader == "mini_tag":
            steps += [self.capture, self.mini, TagReader(**opts)]
        elif self.reader == "tag_after":
            reg = TagReader(**opts)
            steps += [self.capture, reg, self.never]
        else:
            steps += [self.capture, TagReader(**opts)]
        self.dec = configure(Decoder, steps, self.nsteps)
        self.steps = steps
        return loads_ok, opts

    def read_double(self, reader, tag, ctx):
        if not self.muted:
            self.doubles += 1
        return ctx.stream.read_double()

    def never(self, tag, /, ctx, next):
        raise Violation("offered", f"a step after the reader of {tag!r} was called")


class HostDe:
    def __init__(self, f):
        self.deserialize_host_object = f


class MiniArray(list):
    def fill(self, items):
        self.props = {}
        for k, v in items:
            if isinstance(k, int) and k == len(self) and not self.props:
                self.append(v)
            else:
                self.props[k] = v


class MiniMap(JSMap):
    pass


class MiniSet(JSSet):
    pass


class MyMap(JSMap):
    pass


class MySet(JSSet):
    pass


class StrictSet(MutableSet):
    """Like Python's set, whose operators accept only other sets (but for any members)."""

    def __init__(self):
        self.members = JSSet()

    def add(self, x):
        self.members.add(x)

    def discard(self, x):
        self.members.discard(x)

    def __contains__(self, x):
        return x in self.members

    def __iter__(self):
        return iter(self.members)

    def __len__(self):
        return len(self.members)

    def __or__(self, other):
        return NotImplemented

    __ior__ = __or__


class MyObject(JSObject):
    pass


class MyArray(JSArray):
    pass


class MyError:
    def __init__(self, data):
        self.data = data


class Mk:
    pass


UNDEF_MARK, NULL_MARK = Mk(), Mk()
MINI_CONST = {T.kUndefined: JSUndefined, T.kNull: None, T.kTrue: True, T.kFalse: False, T.kTheHole: JSHole}


def same_wrapped(keys):
    ks = [(j.kind, j.v) for k in keys for j in [k.p if k.kind == "wrapper" else k]
          if j.kind in ("string", "number", "bigint", "boolean")]
    return len(set(ks)) < len(ks)


class PyMatch:
    """Compares what the reference reader read with what the library decoded."""

    def __init__(self, plan):
        self.plan = plan
        self.fwd: dict = {}
        self.back: dict = {}
        self.keep: list = []

    def fail(self, path, want, got):
        raise Violation("decoded", f"at {path or 'root'}: expected {want!r:.200}, got {short(got, 200)}")

    def run(self, js, v):
        o = self.plan.opts
        mini = self.plan.reader.startswith("mini")
        todo = [(js, v, "")]
        while todo:
            js, v, path = todo.pop()
            k = js.kind
            bad = lambda: self.fail(path, js, v)  # noqa: E731,B023
            if k == "number":
                if type(v) not in (int, float) or v != js.v and (v == v or js.v == js.v):
                    bad()
                continue
            if k == "bigint":
                if type(v) is not int or v != js.v:
                    bad()
                continue
            if k == "string":
                if type(v) is not str or v != js.v:
                    bad()
                continue
            if k in ("boolean", "null", "undefined"):
                want = js.v if k == "boolean" else (None if k == "null" else JSUndefined)
                if o & 16 and k != "boolean":
                    want = NULL_MARK if k == "null" else UNDEF_MARK
                if v is not want:
                    bad()
                continue
            if k == "wrapper":
                if v != js.p.v and (v == v or js.p.v == js.p.v):
                    bad()
                continue
            if id(js) in self.fwd:
                if self.fwd[id(js)] is not v:
                    self.fail(path, f"the same {k} as before", v)
                continue
            self.fwd[id(js)] = v
            self.keep += [js, v]
            if self.back.setdefault(id(v), js) is not js:
                self.fail(path, f"another {k}", v)
            if k == "wrap":
                if type(v) is not Wrap or v.k != js.k:
                    bad()
                todo.append((js.v, v.v, path + ".wrapped"))
            elif k == "token":
                if type(v) is not Token or v.n != js.n:
                    bad()
            elif k == "date":
                if not isinstance(v, dt.datetime):
                    if js.ms == js.ms:
                        bad()
                elif abs(v.timestamp() * 1000 - js.ms) > 1:
                    bad()
                elif o & 64 and v.tzinfo is not dt.timezone.utc:
                    bad()
            elif k == "regexp":
                if not isinstance(v, JSRegExp) or v.source != js.src:
                    bad()
            elif k == "arraybuffer":
                if js.shared is not None:
                    if not isinstance(v, JSSharedArrayBuffer) or v.buffer_id != js.shared:
                        bad()
                    continue
                if js.transfer is not None:
                    if not isinstance(v, JSArrayBufferTransfer) or v.transfer_id != js.transfer:
                        bad()
                    continue
                if not isinstance(v, JSArrayBuffer):
                    bad()
                with v.data as d:
                    if bytes(d) != js.data or (v.max_byte_length if v.resizable else None) != js.max:
                        bad()
            elif k == "view":
                if chr(v.view_tag) != js.t or js.buf.kind == "arraybuffer" and js.buf.transfer is None and \
                        js.buf.shared is None and v.byte_offset != js.off:
                    bad()
                todo.append((js.buf, v.backing_buffer, path + ".buffer"))
            elif k == "shared":
                if not isinstance(v, V8SharedObjectReference):
                    bad()
            elif k == "host":
                if type(v) is not HostVal or len(v.items) != len(js.items):
                    bad()
                todo += [(a, b, f"{path}.item{j}") for j, (a, b) in enumerate(zip(js.items, v.items))]
            elif k in ("map", "set") and same_wrapped([e[0] for e in js.entries] if k == "map" else js.values):
                pass  # wrapper objects are decoded as what they wrap
            elif k == "map":
                if type(v) is not (MiniMap if mini else MyMap if o & 1 else JSMap) or len(v) != len(js.entries):
                    bad()
                for j, ((a, b), (c, d)) in enumerate(zip(js.entries, v.items())):
                    todo += [(a, c, f"{path}.key{j}"), (b, d, f"{path}.val{j}")]
            elif k == "set":
                if type(v) is not (MiniSet if mini else StrictSet if o & 1024 else MySet if o & 2 else JSSet) or len(v) != len(js.values):
                    bad()
                todo += [(a, c, f"{path}.member{j}") for j, (a, c) in enumerate(zip(js.values, v))]
            elif k == "error":
                if o & 32:
                    if type(v) is not MyError:
                        bad()
                    v = v.data
                elif not isinstance(v, JSError):
                    bad()
                name = {"URIError": "UriError"}.get(js.name, js.name)
                if (v.name, v.message or "", v.stack) != (name, js.message or "", js.stack):
                    self.fail(path, f"{name}, {js.message!r}, {js.stack!r}", (v.name, v.message, v.stack))
                todo.append((js.cause, v.cause, path + ".cause")) if js.cause is not None else None
            elif k == "object":
                if type(v) is not (dict if mini or o & 256 else MyObject if o & 4 else JSObject):
                    bad()
                todo += self.props(js, dict(v.items()), path)
            elif k == "array":
                if mini and type(v) is MiniArray:
                    if max([len(v), *(int(x) + 1 for x in v.props if isinstance(x, (int, float)) and
                                      isinstance(V.js_number_key(x), int))]) != js.length:
                        bad()
                    got = {j: x for j, x in enumerate(v) if x is not JSHole}
                    got.update(v.props)
                elif o & 512:
                    if type(v) is not dict:
                        bad()
                    got = {a: b for a, b in v.items() if b is not JSHole}
                else:
                    if type(v) is not (MyArray if o & 8 else JSArray) or len(v.array) != js.length:
                        bad()
                    got = {a: b for a, b in v.items() if b is not JSHole}
                todo += self.props(js, got, path)
            else:
                raise AssertionError(k)

    def props(self, js, got, path):
        got = {G.norm_key(k) if isinstance(k, str) else V.js_number_key(k) if isinstance(k, float) else
               (k if 0 <= k < 2**32 - 1 else str(k)): x for k, x in got.items()}
        a = sorted((k for k in js.props if isinstance(k, int))) + [k for k in js.props if isinstance(k, str)]
        b = sorted((k for k in got if isinstance(k, int))) + [k for k in got if isinstance(k, str)]
        if a != b:
            self.fail(path, f"properties {a}", b)
        return [(js.props[k], got[k], f"{path}.{k}") for k in a]


# ---------------------------------------------------------------------------


def run(s, env):
    if "src" in s:
        src = {**s["src"], "w": "v8", "g": {**s["src"]["g"], "nodes": [
            [nd[0], nd[1], 0, *nd[3:]] if nd and nd[0] == "err" else nd for nd in s["src"]["g"]["nodes"]]}}
        data, g = W.build(src)
        env.log("v8", data.hex())
        env.probe("data_from_v8")
        run_decode(s, env, data, V.RELEASES[src["rel"]])
        return
    if not s["nodes"]:
        return
    p = Plan(s, env)
    root = p.vals[0]
    if lit_kind(root) is not None:
        root = [root]
    m = Model(p)
    want = boom = None
    try:
        want = m.offer(root)
    except Give:
        env.log("outside")
        env.probe("outside_the_property")
        return
    except (Boom, Refused, KeyRefused) as e:
        boom = e
    env.state(s["steps"], sorted({k for k, _ in p.by_obj.values()}), sorted({nd[0] for nd in s["nodes"]}))
    data = None
    for _ in range(1 + bool(s["twice"])):
        p.log.clear()
        env.calls += 1
        got = None
        try:
            data = bytes(p.enc.encode(root)) if s["api"] else dumps(root, encode_steps=p.real, features=p.features)
        except (Boom, V8SerializeError) as e:
            got = e
        env.log("encoded", None if data is None else data.hex(), type(got).__name__, len(p.log))
        for j, (a, b) in enumerate(zip(m.log, p.log)):
            check(a[0] == b[0] and same(a[1], b[1]), "offered",
                  lambda: f"call {j}: expected {show([a])}, got {show([b])}; before it {show(m.log[max(0, j - 3):j])}")
        if boom is None:
            check(got is None, "refused", lambda: f"{type(got).__name__}: {short(got)} from {exc_site(got)}")
        elif isinstance(boom, Boom):
            check(got is boom, "error", lambda: f"expected {boom!r}, got {got!r:.200}")
        elif isinstance(boom, KeyRefused):
            check(type(got) is EncodeV8SerializeError, "error",
                  lambda: f"a key should be refused, got {got!r:.200} {data!r:.80}")
        else:
            check(type(got) is UnhandledValueEncodeV8SerializeError, "error",
                  lambda: f"expected {boom.value!r:.80} to be refused, got {got!r:.200} {data!r:.80}")
            check(same(got.value, boom.value), "error-value", lambda: f"{got.value!r:.100} not {boom.value!r:.100}")
        check(len(m.log) == len(p.log), "offered",
              lambda: f"expected {show(m.log[len(p.log):][:4])} too" if len(m.log) > len(p.log)
              else f"unexpected {show(p.log[len(m.log):][:4])}")
    if p.taken:
        env.nontrivial = True
    for k in p.taken:
        env.probe("encode_" + k)
    if data is None or boom is not None:
        return
    r = RefReader(data, None, REL)
    try:
        js = r.read()
    except V.V8Error as e:
        raise Violation("malformed", f"{e}; {data.hex()[:300]}") from None
    except Give:  # a step made two keys one
        env.probe("outside_the_property")
        return
    check(r.p == len(data), "malformed", f"{len(data) - r.p} bytes left over; {data.hex()[:300]}")
    Match().run(want, js)
    run_decode(s, env, data)


def run_decode(s, env, data, rel=REL):
    try:
        plan = DecodePlan(s["dec"], data, env, rel)
    except (Give, V.V8Error):  # circular error causes, which only newer releases can read
        env.probe("outside_the_property")
        return
    ref = RefReader(data, plan, rel)
    js = boom = None
    try:
        js = ref.read()
    except StepRaises as e:
        boom = e
    except Give:
        env.probe("outside_the_property")
        return
    loads_ok, opts = plan.build()
    got = v = None
    env.calls += 1
    try:
        v = loads(data, **opts) if loads_ok else plan.dec.decodes(data)
    except (Boom, V8SerializeError) as e:
        got = e
    if plan.acts:
        env.nontrivial = True
    for a in set(plan.acts.values()):
        env.probe("decode_" + a)
    env.probe("reader_" + plan.reader)
    env.log("decoded", type(got).__name__, len(plan.seen))
    env.state("d", plan.reader, plan.opts, plan.nsteps, sorted(set(plan.acts.values())))
    check(plan.seen == ref.seen, "offered",
          lambda: f"(step, item) offered: expected {ref.seen[:40]}, got {plan.seen[:40]}; {data.hex()[:200]}")
    if plan.opts & 128:
        check(plan.doubles == ref.doubles, "tag-reader", f"called {plan.doubles} times for {ref.doubles} doubles")
    if plan.opts & 16:
        check(plan.constants == {T.kUndefined: UNDEF_MARK, T.kNull: NULL_MARK}, "options", "the options were changed")
    if boom is None:
        check(got is None, "refused", lambda: f"{type(got).__name__}: {short(got)} from {exc_site(got)}")
        PyMatch(plan).run(js, v)
    elif boom.what == "raise":
        check(got is plan.boom, "error", lambda: f"expected {plan.boom!r}, got {got!r:.200}")
    else:
        check(type(got) is UnhandledTagDecodeV8SerializeError, "error",
              lambda: f"item {boom.n} is not handled, but got {got!r:.200} {short(v)}")
        check(chr(got.tag) == plan.items[boom.n][0] or plan.retagged(9, boom.n), "error-tag",
              lambda: f"{got.tag!r} for an item with tag {plan.items[boom.n][0]!r}")
