"""C14: a value changed while it is being serialized never gives a malformed message."""
from __future__ import annotations

import datetime as dt
import random
from collections import OrderedDict, UserDict, UserList, abc, deque

import graphs as G
import refv8 as V
import sched
from core import Violation, check, short

from v8serialize import Encoder, default_encode_steps, loads, Decoder, TagReader
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSSet,
    JSUndefined,
)

from v8serialize.jstypes.jsbuffers import JSArrayBufferView

PROP = "C14"
RUNS = {"quick": 40000, "thorough": 900000}
CHUNK = 60
OPTIMIZE = True
RULE = (
    "scenario = 2-9 linked mutable containers and buffers of every kind, one or two serializing "
    "threads and one or two mutating threads with seeded operations (or a step that mutates in the "
    "middle of the call) under a seeded schedule between lines or bytecodes; non-trivial when a "
    "mutation happened between the first and last point of a serialization; distinct by trace digest"
)
STATE_MEASURE = "set of (container kind, mutation, outcome) per run"
COMPONENTS = {
    "v8serialize encode/decode/extensions/jstypes": "real, threads run one at a time",
    "thread scheduler": "simulated (sim/sched.py)",
    "V8 reader": "model (sim/refv8.py)",
    "mutators": "harness",
}
ASSUMPTIONS = [
    "switches happen between lines or bytecodes of Python code, as with the GIL; C code is atomic",
    "elements of JSArray may be holes while it is being changed",
]

KINDS = ["list", "tuple", "deque", "ulist", "dict", "odict", "udict", "keys", "values", "set",
         "obj", "arr", "arr", "sparr", "map", "map", "mset", "err", "errd", "barr", "ab", "abw",
         "view", "view", "view", "date"]
BUFFERS = ("barr", "ab", "abw")
VIEW_T = ["B", "b", "C", "W", "w", "D", "d", "f", "F", "Q", "q", "?"]


def gen_tiny(r, i):
    """One small value, changed a few times while its serializer stays put at one place after another."""
    k = r.choice(KINDS)
    kinds = [k] * r.choice([1, 1, 1, 2])
    if k in ("tuple", "view", "date", "keys", "values", *BUFFERS):
        kinds = ["list", *kinds]
    if k == "view" or k in BUFFERS:
        kinds += [r.choice(BUFFERS), "view"][:r.choice([1, 2])]
    if k in ("keys", "values"):
        kinds.append("dict")
    n = len(kinds)
    conts = [[k, [*(range(1, n) if j == 0 else ()), *[-1] * r.choice([0, 1, 2, 3, 5])], r.randrange(10**6)]
             for j, k in enumerate(kinds)]
    ops = [r.randrange(12) for _ in range(r.choice([1, 2, 2, 12]))]
    at = [r.randrange(n) for _ in range(r.choice([1, 1, 3]))]
    muts = [[r.choice(at), r.choice(ops), r.choice([0, 3, 7, 15, r.randrange(64)]), r.randrange(40),
             r.choice([-1, -1, -1, r.randrange(n)])] for _ in range(r.choice([2, 3, 5, 12]))]
    op = (i // CHUNK) % 3 == 2
    s = {"conts": conts, "ser": [[r.randrange(4), r.choice([0, 15, 15, r.randrange(16)])]], "mut": [muts], "inline": []}
    s["plan"] = {"op": int(op), "sw": [], "first": 0, "park": [
        [int(r.random() * (700 if op else 120)), r.choice([1, 1, 2, 3, 4, 6]), r.choice([1, 2, 5, 10, 30]), 0]
        for _ in range(r.choice([3, 6, 12]))]}
    return s


def gen(r, i, tier):
    if r.random() < 0.5:
        return gen_tiny(r, i)
    n = r.randrange(2, 10)
    kinds = [r.choice(KINDS) for _ in range(n)] if r.random() < 0.5 else None
    if kinds is None:
        pool = [r.choice(KINDS) for _ in range(r.randrange(1, 4))]
        kinds = [r.choice(pool) for _ in range(n)]
    if kinds[0] in ("barr", "ab", "abw", "view", "date") and r.random() < 0.8:
        kinds[0] = r.choice(["list", "obj", "map", "arr", "err"])
    focus = r.random()
    if focus < 0.3:  # buffers and views of them
        kinds = ["list", *(r.choice(["barr", "barr", "ab", "abw"]) for _ in range(r.choice([1, 1, 2]))),
                 *["view"] * r.choice([1, 1, 2, 3]), *["list"] * r.choice([0, 0, 1])]
        n = len(kinds)
    elif focus < 0.42:  # a small value changed all the time
        k = r.choice(["err", "err", "errd", "barr", "ab", "abw", "sparr", "arr", "obj", "map"])
        kinds = [k] * r.choice([1, 1, 2])
        if r.random() < 0.3 or k in BUFFERS:
            kinds.insert(0, "list")
            if r.random() < 0.5:
                kinds.append("view")
        n = len(kinds)
    storm = 0.3 <= focus < 0.42
    conts = []
    for j, k in enumerate(kinds):
        kids = []
        for _ in range(r.choice([0, 1, 2, 3, 6, 12])):
            kids.append(r.randrange(n) if r.random() < 0.3 else -1)
        if r.random() < 0.8 and j + 1 < n:
            kids.insert(r.randrange(len(kids) + 1), j + 1)
        if focus < 0.3 and j == 0:
            kids = [*range(1, n)]
            if r.random() < 0.6:
                r.shuffle(kids)
            for _ in range(r.choice([0, 0, 1, 3])):
                kids.insert(r.randrange(len(kids) + 1), -1)
        conts.append([k, kids, r.randrange(10**6)])
    def mops(m):
        return [[r.choice([1, 1, r.randrange(n)]) if focus < 0.3 else r.randrange(n), r.randrange(12), r.randrange(64), r.randrange(40),
                 r.randrange(n) if r.random() < 0.25 else -1] for _ in range(m)]
    ops = [r.randrange(12) for _ in range(r.choice([1, 1, 2, 3]))]

    def storm_ops(m):
        return [[r.choice([0, 0, 1]), r.choice(ops), r.choice([0, 3, 7, 15, r.randrange(64)]), r.randrange(40), -1]
                for _ in range(m)]
    nm = r.choice([0, 1, 1, 1, 2])
    ns = r.choice([1, 1, 1, 2])
    if storm:
        nm, ns = 1, 1
    s = {"conts": conts, "ser": [[r.randrange(4), r.choice([0, 15, 15, r.randrange(16)])] for _ in range(ns)],
         "mut": [storm_ops(70) if storm else mops(r.randrange(1, 12)) for _ in range(nm)], "inline": []}
    if nm == 0 or r.random() < 0.2:
        s["inline"] = [[r.randrange(1, 24), x] for x in mops(r.randrange(1, 6))]
    plan = sched.gen_plan(r, ns + nm, op=(i // CHUNK) % 3 == 2)
    plan.pop("inj", None)
    # most mutations ought to land inside the call: start with the serializer
    if r.random() < 0.7:
        plan["first"] = 0
    if storm:
        lo = r.choice([1, 1, 2, 4, 9])
        plan["sw"] = []
        if r.random() < 0.7:
            plan["sw"].append([r.randrange(1, 400), 0])
            plan["sw"].append([1, 0])
        for _ in range(60):
            plan["sw"] += [[r.randrange(1, 2 + 2 * lo), 0], [r.randrange(1, 4), 0]]
    s["plan"] = plan
    return s


class World:
    def __init__(self, s):
        self.tok = 0
        self.n = n = len(s["conts"])
        self.kinds = [c[0] if c[0] in KINDS else "list" for c in s["conts"]]
        self.vals: list = [None] * n
        self.ever: list = [set() for _ in range(n)]  # tokens / ("c", i) / pairs
        self.x = [c[2] for c in s["conts"]]
        self.by_id: dict[int, int] = {}
        order = [j for j in range(n) if self.kinds[j] not in ("tuple", "view", "keys", "values")]
        late = [j for j in range(n - 1, -1, -1) if self.kinds[j] not in order and j not in order]
        for j in order:
            self.make(j)
        # views, then dict views, then tuples: each may hold those made before
        rank = {"view": 0, "keys": 1, "values": 1, "tuple": 2}
        for j in sorted(late, key=lambda j: (rank[self.kinds[j]], -j)):
            if self.kinds[j] == "tuple":
                kids = [c for c in s["conts"][j][1]]
                out = [f"c{j}"] + [self.child(c) for c in kids]
                self.vals[j] = tuple(out)
                self.note(j)
            else:
                self.make(j)
        for j in order:
            if self.kinds[j] in BUFFERS or self.kinds[j] == "date":
                continue
            for k, c in enumerate(s["conts"][j][1]):
                self.mutate(j, 0, k, k, c, init=True)
        for j in range(n):
            self.by_id[id(self.vals[j])] = j

    def token(self):
        self.tok += 1
        return self.tok

    def child(self, c):
        if c >= 0:
            v = self.vals[c % self.n]
            if v is not None:
                return v
        return self.token()

    def enc(self, v):
        """How a child is recorded: a token or the index of a container."""
        if type(v) is int or isinstance(v, (str, float)) or v is None or v is JSHole:
            return v
        for j, o in enumerate(self.vals):
            if o is v:
                return ("c", j)
        raise AssertionError(short(v))

    def make(self, j):
        k = self.kinds[j]
        m = f"c{j}"
        x = self.x[j]
        if k == "list":
            v = [m]
        elif k == "deque":
            v = deque([m])
        elif k == "ulist":
            v = UserList([m])
        elif k == "dict":
            v = {"c": m}
        elif k == "odict":
            v = OrderedDict(c=m)
        elif k == "udict":
            v = UserDict({"c": m})
        elif k in ("keys", "values"):
            src = [self.vals[i] for i in range(self.n) if self.kinds[i] in ("dict", "odict", "udict")]
            if not src:
                self.kinds[j] = "list"
                v = [m]
            else:
                d = src[x % len(src)]
                v = d.keys() if k == "keys" else d.values()
        elif k == "set":
            v = {m}
        elif k == "obj":
            v = JSObject(c=m)
        elif k in ("arr", "sparr"):
            v = JSArray(c=m)
            if k == "sparr":
                v[300 + x % 300] = 0
                self.ever[j].add(0)
        elif k == "map":
            v = JSMap([("c", m)])
        elif k == "mset":
            v = JSSet([m])
        elif k in ("err", "errd"):
            v = (JSError if k == "err" else JSErrorData)(f"{m} 0", stack=f"{m} 0", name="Error")
            self.ever[j] |= {("message", f"{m} 0"), ("stack", f"{m} 0"), ("name", "Error"), ("cause", None)}
        elif k == "barr":
            v = bytearray([j] * (x % 40))
        elif k == "ab":
            v = JSArrayBuffer(bytes([j] * (x % 40)), max_byte_length=64)
        elif k == "abw":  # a buffer object around memory others resize
            self.own = getattr(self, "own", {})
            self.own[j] = bytearray([j] * (x % 40))
            v = JSArrayBuffer(self.own[j], copy_data=False)
        elif k == "view":
            bufs = [i for i in range(self.n) if self.kinds[i] in BUFFERS and self.vals[i] is not None]
            if not bufs:
                self.kinds[j] = "list"
                v = [m]
            else:
                b = bufs[x % len(bufs)]
                cls, size = G.view_class(VIEW_T[x // 7 % len(VIEW_T)])
                off = (x // 100) % 5
                ln = None if (x // 500) % 3 == 0 else (x // 1500) % 6
                v = cls(self.vals[b], item_offset=off, item_length=ln)
                self.ever[j].add(("buf", b))
        elif k == "date":
            v = dt.datetime.fromtimestamp(1000 + j, dt.timezone.utc)
        self.vals[j] = v
        self.note(j)

    def raw(self, j):
        v = self.vals[j]
        return bytes(v) if type(v) is bytearray else bytes(v.data)

    def note(self, j):
        """Record what is in container j now (called with nothing else running)."""
        k = self.kinds[j]
        v = self.vals[j]
        e = self.ever[j]
        if k in BUFFERS:
            e.add(("bytes", self.raw(j)))
            for i in range(self.n):
                if self.kinds[i] == "view" and self.vals[i] is not None and ("buf", j) in self.ever[i]:
                    self.note(i)
        elif k == "view":
            e.add(("geo", v.byte_offset, v.byte_length))
            e.add(("bytes", bytes(v.get_buffer_as_memoryview())))
        elif k in ("list", "deque", "ulist", "tuple"):
            for i, c in enumerate(v):
                e.add((i, self.enc(c)))
        elif k in ("dict", "odict", "udict"):
            for a, c in v.items():
                e.add((a, self.enc(c)))
            for i in range(self.n):  # views of it
                if self.kinds[i] in ("keys", "values") and self.vals[i] is not None:
                    self.note(i)
        elif k in ("keys", "values", "set"):
            for c in v:
                e.add(self.enc(c))

    # -- mutations -------------------------------------------------------------

    def mutate(self, j, op, a, b, c, init=False):
        """One operation of a mutator on container j.  Returns its name."""
        j %= self.n
        k = self.kinds[j]
        v = self.vals[j]
        e = self.ever[j]
        if k in ("list", "deque", "ulist"):
            with sched.quiet():
                x = self.child(c)
                n = len(v)
                op = 0 if init else op % 8
                if op <= 1:
                    v.append(x)
                elif op == 2 and n > 1:
                    v.pop()
                elif op == 3:
                    v.insert(1 + a % n, x)
                elif op == 4 and n > 1:
                    del v[1 + a % (n - 1)]
                elif op == 5 and n > 1:
                    v[1 + a % (n - 1)] = x
                elif op == 6:
                    if k == "deque":
                        while len(v) > 1:
                            v.pop()
                    else:
                        del v[1:]
                else:
                    xs = [self.child(-1) for _ in range(b % 5)]
                    v.extend(xs)
                self.note(j)
        elif k in ("dict", "odict", "udict"):
            with sched.quiet():
                x = self.child(c)
                key = f"k{a % 6}"
                op = 0 if init else op % 6
                if op <= 1:
                    v[key] = x
                elif op == 2:
                    v.pop(key, None)
                elif op == 3:
                    v.update({f"k{i}": self.child(-1) for i in range(b % 8)})
                elif op == 4:
                    for q in [q for q in v if q != "c"]:
                        del v[q]
                elif op == 5:  # moves to the end: same size, other order
                    if key in v:
                        v[key] = v.pop(key)
                self.note(j)
        elif k == "set":
            with sched.quiet():
                if op % 3 == 1 and len(v) > 1:
                    for q in list(v):
                        if type(q) is int:
                            v.discard(q)
                            if b % 2:
                                break
                else:
                    v.add(self.token())
                    if op % 3 == 2:
                        v |= {self.token() for _ in range(b % 9)}
                self.note(j)
        elif k == "obj":
            key = f"k{a % 6}" if b % 3 else a % 20
            x = self.child(c)
            nk = str(key) if type(key) is str else key
            e.add((nk, self.enc(x)))
            op = 0 if init else op % 5
            if op <= 1:
                v[key] = x
            elif op == 2:
                v.pop(key, None)
            elif op == 3:
                v.update({key: x})
            else:
                for q in list(v.keys()):
                    if q != "c":
                        v.pop(q, None)
        elif k in ("arr", "sparr"):
            x = self.child(c)
            e.add(self.enc(x))
            arr = v.array
            op = 0 if init else op % 9
            n = len(arr)
            if op <= 1:
                if init and k == "sparr":
                    v[a % 200] = x
                else:
                    arr.append(x)
            elif op == 2 and n:
                arr.pop()
            elif op == 3:
                arr.insert(a % (n + 1), x)
            elif op == 4 and n:
                del arr[a % n]
            elif op == 5:
                v[a % 40 + (600 if b % 7 == 0 else 0)] = x
            elif op == 6:
                arr.resize(b % 30)
            elif op == 7:
                key = f"k{a % 6}"
                e.add((key, self.enc(x)))
                if b % 3:
                    v[key] = x
                else:
                    v.pop(key, None)
            elif op == 8 and n:
                v.pop(a % n, None)
        elif k == "map":
            key = f"k{a % 6}" if b % 4 else a % 6
            x = self.child(c)
            e.add((key, self.enc(x)))
            op = 0 if init else op % 6
            if op <= 1:
                v[key] = x
            elif op == 2:
                v.pop(key, None)
            elif op == 3:
                for i in range(b % 7):
                    y = self.child(-1)
                    e.add((f"k{i}", y))
                    v[f"k{i}"] = y
            elif op == 4:
                for q in list(v):
                    if q != "c":
                        v.pop(q, None)
            else:
                with sched.quiet():
                    y = v.pop(key, None)
                    if y is not None:
                        v[key] = y
        elif k == "mset":
            x = self.child(c)
            e.add(self.enc(x))
            op = 0 if init else op % 4
            if op <= 1:
                v.add(x)
            elif op == 2:
                for q in list(v):
                    if type(q) is not str:
                        v.discard(q)
                        if b % 2:
                            break
            else:
                with sched.quiet():
                    for q in list(v)[1:2]:
                        v.discard(q)
                        v.add(q)
        elif k in ("err", "errd"):
            m = f"c{j}"
            f = ["message", "stack", "name", "cause"][op % 4]
            if init:
                f = "cause"
            x = self.child(c) if f == "cause" else f"{m} {self.token()}"
            if f == "name":
                x = ["TypeError", "RangeError", "Error"][a % 3]
            if f == "stack" and a % 5 == 0:
                x = None
            if f == "cause" and a % 4 == 3:
                x = None
            e.add((f, self.enc(x)))
            setattr(v, f, x)
        elif k in BUFFERS:
            with sched.quiet():
                try:
                    self.mutate_buffer(j, k, v, op, a, b)
                except BufferError:
                    return "locked"
                self.note(j)
        return f"{k}{op}"

    def mutate_buffer(self, j, k, v, op, a, b):
        if k == "ab":
            n = len(v.data)
            if op % 4 == 0:
                v.resize((n + 1 + a) % 65)
            elif op % 4 == 1:
                v.resize(max(0, n - 1 - a % 20))
            elif op % 4 == 2:
                v.resize(0 if a % 2 else 64)
            else:
                with memoryview(v.data) as m:
                    if len(m):
                        m[a % len(m)] = self.token() % 256
            if op % 3 == 0 and len(v.data):
                with memoryview(v.data) as m:
                    m[:] = bytes([self.token() % 256]) * len(m)
            return
        d = v if k == "barr" else self.own[j]
        op %= 6
        if op == 0:
            d.append(self.token() % 256)
        elif op == 1:
            del d[a % (len(d) + 1):]
        elif op == 2:
            d.extend(bytes([self.token() % 256]) * b)
        elif op == 3 and len(d):
            d[a % len(d)] = self.token() % 256
        elif op == 4:
            d.clear()
        else:
            d[:] = bytes([self.token() % 256]) * len(d)

    # -- is a decoded value made of what was there? --------------------------------

    def verify(self, root, v, node):
        seen = set()
        todo = [(root, v, "$")]

        def fits(cands, y, path):
            """y stands where one of these children (recorded form) has stood."""
            js = []
            for c in cands:
                if isinstance(c, tuple):
                    if self.looks(c[1], y) and c[1] not in js:
                        js.append(c[1])
                elif type(y) is type(c) and y == c:
                    return True
            marked = [j for j in js if self.kinds[j] not in ("keys", "values", "view", *BUFFERS, "date")]
            if marked:
                js = marked
            if len(js) == 1:
                todo.append((js[0], y, path))
            elif js and type(y) is JSArrayBuffer:
                check(any(("bytes", bytes(y.data)) in self.ever[j] for j in js), "content",
                      lambda: f"{path}: a buffer holds {bytes(y.data)!r}, which none ever did")
            return bool(js)

        while todo:
            j, y, path = todo.pop()
            if (j, id(y)) in seen:
                continue
            seen.add((j, id(y)))
            k = self.kinds[j]
            e = self.ever[j]
            if not self.looks(j, y):
                raise Violation("content", f"{path}: {k} {j} arrived as {short(y)}")
            if k == "date":
                continue
            if k in BUFFERS:
                check(("bytes", bytes(y.data)) in e, "content",
                      lambda: f"{path}: {k} {j} holds {bytes(y.data)!r}, which it never did")
                continue
            if k == "view":
                if node:
                    check(("bytes", bytes(y.get_buffer_as_memoryview())) in e, "content",
                          lambda: f"{path}: view {j} shows {short(y)}, which it never did")
                    continue
                b = y.backing_buffer
                (_, bj), = [t for t in e if t[0] == "buf"]
                check(("bytes", bytes(b.data)) in self.ever[bj], "content",
                      lambda: f"{path}: buffer {bj} holds {bytes(b.data)!r}, which it never did")
                ok = ("geo", y.byte_offset, y.byte_length) in e or (
                    y.is_length_tracking and any(t[0] == "geo" and t[1] == y.byte_offset for t in e))
                check(ok, "content", lambda: f"{path}: view {j} of bytes {y.byte_offset}+{y.byte_length}")
                continue
            items = self.items(k, y)
            for i, (key, c) in enumerate(items):
                p = f"{path}.{key}"
                cands = self.candidates(j, k, key)
                if c is JSHole and k in ("arr", "sparr"):
                    continue
                if not fits(cands, c, p):
                    raise Violation("content", f"{p}: {k} {j} holds {short(c)} at {key!r}, which it never did")

    def candidates(self, j, k, key):
        e = self.ever[j]
        if k in ("set", "mset", "keys", "values"):
            return [*e, f"c{j}"] if k in ("set", "mset") else list(e)
        if k in ("arr", "sparr"):
            if key == "c":
                return [f"c{j}"]
            if isinstance(key, str):
                return [x[1] for x in e if isinstance(x, tuple) and x[0] == key]
            return [x for x in e if not (isinstance(x, tuple) and x[0] != "c")]
        if key == "c" and k in ("obj", "map"):
            return [f"c{j}"]
        return [x[1] for x in e if x[0] == key]

    def items(self, k, y):
        if k in ("list", "deque", "ulist", "tuple"):
            return list(enumerate(y.array))
        if k in ("values",):
            return [(0, x) for x in y.array]
        if k in ("keys", "set", "mset"):
            return [(0, x) for x in y]
        if k in ("err", "errd"):
            name = getattr(y.name, "value", y.name)
            return [("message", y.message), ("stack", y.stack), ("name", str(name)), ("cause", y.cause)]
        return list(y.items())

    def looks(self, j, y):
        k = self.kinds[j]
        m = f"c{j}"
        if k in ("list", "deque", "ulist", "tuple"):
            return type(y) is JSArray and len(y.array) > 0 and y.array[0] == m and not len(y.properties)
        if k == "values":
            return type(y) is JSArray
        if k in ("arr", "sparr"):
            return type(y) is JSArray and y.get("c") == m
        if k in ("dict", "odict", "udict", "map"):
            return type(y) is JSMap and y.get("c") == m
        if k == "obj":
            return type(y) is JSObject and y.get("c") == m
        if k in ("set", "mset"):
            return type(y) is JSSet and m in y
        if k == "keys":
            return type(y) is JSSet
        if k in ("err", "errd"):
            return type(y) is JSError and y.message.split(" ")[0] == m
        if k in BUFFERS:
            return type(y) is JSArrayBuffer
        if k == "view":
            return isinstance(y, JSArrayBufferView) and y.view_tag == self.vals[j].view_tag
        return isinstance(y, dt.datetime)


_WARM = []


def warm_up():
    """Fill the caches whose state decides how many lines a call runs through."""
    if _WARM:
        return
    _WARM.append(1)
    pool = [k for k in dict.fromkeys(KINDS)]
    order = [k for k in pool if k != "view"]
    conts = [["list", list(range(1, len(order) + 13)), 0]]
    conts += [[k, [-1, -1], 0] for k in order]
    conts += [["view", [], 7 * i] for i in range(12)]
    w = World({"conts": conts})
    for kind in (0, 3):
        steps = [*default_encode_steps]
        if kind == 3:
            steps.insert(1, serialize_js_array_buffer_views_as_nodejs_host_object)
        for f in (0, 15):
            try:
                Encoder(encode_steps=steps, features=G.features_of(f)).encode(w.vals)
            except Exception:  # noqa: BLE001
                pass


def run(s, env):
    if not s["conts"] or not s["ser"]:
        return
    warm_up()
    w = World(s)
    root = w.vals[0]
    active = [0]
    hits = [0]
    quiet_end = [True]
    log = []
    alone = len(s["mut"]) == 1 and not s["inline"]

    def look():
        # a sparse array read and changed by two threads at once may lose track of its keys
        with sched.quiet():
            for x, k in zip(w.vals, w.kinds):
                if k in ("arr", "sparr") and len(x.array) > 2 * x.array.elements_used:
                    quiet_end[0] = False

    def mutate(mo, who):
        j, op, a, b, c = mo
        look()
        try:
            if alone:
                r = w.mutate(j, op, a, b, c)
            else:
                # two changes of one container at once is not what this is about
                with sched.quiet():
                    r = w.mutate(j, op, a, b, c)
        except sched.Kill:
            raise
        except Exception as e:  # noqa: BLE001  a container changed by two threads at once
            r = type(e).__name__
        if active[0]:
            hits[0] += 1
            env.fault("mutation_" + w.kinds[j % w.n])
        log.append((w.kinds[j % w.n], r))
        env.log("mutate", who, j, op, a, b, c, r)
        look()

    def make_encoder(kind, feats):
        inline = {}
        for at, mo in s["inline"]:
            inline.setdefault(at, []).append(mo)
        count = [0]

        def step(value, /, ctx, next):
            count[0] += 1
            for mo in inline.get(count[0], ()):
                with sched.quiet():
                    mutate(mo, "step")
            next(value)

        steps = [*default_encode_steps]
        if kind == 3:
            steps.insert(1, serialize_js_array_buffer_views_as_nodejs_host_object)
        if inline:
            steps.insert(0, step)
        return Encoder(encode_steps=steps, features=G.features_of(feats))

    results = []

    def serializer(i, kind, feats):
        enc = make_encoder(kind, feats)

        def go(t):
            active[0] += 1
            try:
                r = bytes(enc.encode(root))
                results.append((kind, feats, r))
                env.log("done", i, len(r))
            except (sched.Kill, Violation):
                raise
            except Exception as e:  # noqa: BLE001
                env.log("raised", i, type(e).__name__)
                env.probe("raised_" + type(e).__name__)
                log.append(("raised", type(e).__name__))
            finally:
                active[0] -= 1
        return go

    def mutator(i, ops):
        def go(t):
            for mo in ops:
                t.sched.point()
                mutate(mo, i)
        return go

    sc = sched.Sched(s["plan"], env)
    for i, (kind, feats) in enumerate(s["ser"]):
        sc.spawn(f"ser{i}", serializer(i, kind, feats))
    for i, ops in enumerate(s["mut"]):
        sc.spawn(f"mut{i}", mutator(i, ops))
    sc.run()
    for t in sc.tasks:
        if t.error is not None:
            raise t.error
    env.calls += len(s["ser"])
    if hits[0]:
        env.nontrivial = True
    env.state(sorted(set(map(repr, log))))

    for kind, feats, r in results:
        well_formed(w, r, kind, feats, env)

    # quiet again: the value as it is now
    if not quiet_end[0]:
        return
    for kind, feats in {(k, f) for k, f in s["ser"]}:
        enc = Encoder(features=G.features_of(feats))
        try:
            r = bytes(enc.encode(root))
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ == "IllegalCyclicReferenceV8SerializeError":
                continue
            if isinstance(e, RecursionError):
                continue
            raise
        well_formed(w, r, 0, feats, env)
        exact(w, loads(r))


DEC_NODE = Decoder([TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])


def well_formed(w, r, kind, feats, env):
    try:
        v = DEC_NODE.decodes(r)
    except Exception as e:  # noqa: BLE001
        raise Violation("malformed", f"does not decode: {type(e).__name__}: {short(str(e), 200)}; "
                        f"{r.hex()[:300]}") from e
    if kind != 3:
        try:
            V.Reader(r, V.RELEASES["13.x"]).read()
        except V.V8Error as e:
            raise Violation("malformed", f"V8 rejects it: {short(str(e), 200)}; {r.hex()[:300]}") from e
    w.verify(0, v, kind == 3)
    env.probe("messages_checked")


def exact(w, v):
    """Decoded from the now unchanging value: everything is there."""
    seen = set()
    todo = [(0, v, "$")]
    while todo:
        j, y, path = todo.pop()
        if (j, id(y)) in seen:
            continue
        seen.add((j, id(y)))
        k = w.kinds[j]
        src = w.vals[j]
        if k in ("date", "view"):
            continue
        if k in BUFFERS:
            check(bytes(y.data) == w.raw(j), "later-result", f"{path}: {short(y)}")
            continue
        if k in ("list", "deque", "ulist", "tuple"):
            want = list(enumerate(src))
        elif k == "values":
            want = [(0, x) for x in src]
        elif k in ("keys", "set", "mset"):
            want = [(0, x) for x in src]
        elif k in ("err", "errd"):
            want = [("message", src.message), ("stack", src.stack),
                    ("name", getattr(src.name, "value", src.name)), ("cause", src.cause)]
        else:
            want = list(src.items())
        got = w.items(k, y)
        check(len(want) == len(got) and [a for a, _ in want] == [a for a, _ in got], "later-result",
              lambda: f"{path}: {k} {j}: keys {short([a for a, _ in got])} instead of {short([a for a, _ in want])}")
        for (a, x), (_, z) in zip(want, got):
            c = w.enc(x)
            if isinstance(c, tuple):
                check(w.looks(c[1], z), "later-result", lambda: f"{path}.{a}: {short(z)}")
                todo.append((c[1], z, f"{path}.{a}"))
            else:
                check(z == c or z is c, "later-result", lambda: f"{path}.{a}: {short(z)} instead of {c!r}")
