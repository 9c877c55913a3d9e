"""C18: nothing the caller has dropped is kept alive by the library."""
from __future__ import annotations

import gc
import random
import sys
import weakref
from collections import abc, deque

import graphs as G
import mesh as M
import sched
import wire as W
from core import Violation, check, configure, short

from v8serialize import Decoder, Encoder, default_decode_steps, default_encode_steps, dumps, loads
from v8serialize.decode import TagReader
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSDataView,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSSet,
    JSUint16Array,
    JSUndefined,
    js_repr_settings,
)

PROP = "C18"
RUNS = {"quick": 9000, "thorough": 200000}
CHUNK = 60
RULE = (
    "scenario = encoders and decoders that live on, and a seeded history of serializing, "
    "deserializing, comparing, printing and container edits whose values, steps, handlers, readers, "
    "buffers and errors are dropped afterwards, many of which fail (raising steps, sources and "
    "elements, unsupported values, damage, exceptions injected at the n-th event, exhausted stack); "
    "after each, garbage is collected and what was dropped must be gone, while containers must hold "
    "exactly what they show; some calls are repeated and their memory compared; non-trivial when a "
    "call failed or an entry was removed; distinct by trace digest"
)
STATE_MEASURE = "operation x fault x outcome x number of things tracked"
COMPONENTS = {
    "v8serialize encode/decode/jstypes/extensions": "real",
    "callers, steps, sources, readers": "harness objects, tracked by weak references",
    "stack, memory, interrupts": "simulated (sim/sched.py)",
    "garbage collector": "real, run at seeded points only",
    "foreign writers": "model (sim/refv8.py)",
}
ASSUMPTIONS = [
    "an exception may hold what the failed call was given, while the exception is alive",
    "only objects which support weak references are tracked, and exports of bytearrays",
]

CONTS = ["obj", "obj", "arr", "arr", "map", "map", "set", "set"]
OPS = ["enc", "enc", "enc", "dec", "dec", "dec", "cmp", "cmp", "cont", "cont", "cont", "buf", "rep"]


def gen(r, i, tier):
    ops = []
    for _ in range(r.choice([1, 2, 3, 5])):
        k = r.choice(OPS)
        op = [k, r.randrange(10**6)]
        if k == "cmp":  # comparing and printing take exponential time if much is shared
            op.append(G.flavoured(r, 0.5, G.gen_graph(r, size=r.choice([1, 2, 4, 8]), maxwidth=3)))
        elif k == "enc":
            op.append(G.flavoured(r, 0.5, G.gen_graph(r, size=r.choice([1, 2, 4, 8, 14]))))
        elif k == "dec":
            op.append(W.gen_source(r))
        elif k == "rep":
            op.append(r.choice([0, 1]))
            op.append(G.flavoured(r, 0.5, G.gen_graph(r, size=r.choice([1, 2, 4, 6])))
                      if op[2] == 0 else W.gen_source(r))
        elif k == "cont":
            op.append(r.choice(CONTS))
            op.append([[r.randrange(24), r.randrange(64), r.randrange(16)]
                       for _ in range(r.choice([4, 10, 25] if tier == "quick" else [10, 25, 80]))])
        elif k == "buf":
            op.append([[r.randrange(10), r.randrange(40), r.randrange(8)] for _ in range(r.choice([3, 8]))])
        ops.append(op)
    return {"how": r.randrange(4), "f": r.choice(G.FEATURES), "ops": ops}


class Canary:
    __slots__ = ("__weakref__", "n")

    def __init__(self, n=0):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


class Failed(Exception):
    pass


class Odd:
    """Nothing can serialize it."""


class Fickle:
    """An element which fails when it is compared or printed."""

    def __init__(self, what):
        self.what = what

    def __eq__(self, o):
        if "eq" in self.what:
            raise Failed("eq")
        return self is o

    def __hash__(self):
        return 7

    def __repr__(self):
        if "repr" in self.what:
            raise Failed("repr")
        return "<f>"


class Step:
    """An encode or decode step which fails when its time has come."""

    def __init__(self, at, keep=None):
        self.left = at

    def __call__(self, v, /, ctx, next):
        self.left -= 1
        if self.left == 0:
            raise Failed("step")
        return next(v)


def canary_step(v, /, ctx, next):
    if type(v) is Canary:
        v = f"canary {v.n}"
    return next(v)


class Handler:
    def __init__(self, at):
        self.left = at

    def deserialize_host_object(self, *, stream):
        self.left -= 1
        if self.left == 0:
            raise Failed("handler")
        return NodeJsArrayBufferViewHostObjectHandler().deserialize_host_object(stream=stream)


class Reader:
    def __init__(self, data, fail):
        self.data = data
        self.fail = fail

    def read(self, n=-1):
        if self.fail:
            raise Failed("read")
        d, self.data = self.data, b""
        return d


class Data(bytes):
    """bytes which can be tracked"""


CLASSES = (JSObject, JSArray, JSMap, JSSet, JSError, JSErrorData, JSArrayBuffer, set, frozenset, deque,
           BaseException, Canary, abc.Mapping, abc.Sequence, abc.Set)


def track(v, refs, limit=400):
    """Weak references to all there is in a value."""
    todo = [v]
    seen = set()
    keep = []
    while todo and len(seen) < limit:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (type, range)) or o is JSHole or o is JSUndefined:
            continue
        seen.add(id(o))
        keep.append(o)
        try:
            if type(o).__module__ not in ("builtins", "re", "enum", "datetime", "zoneinfo", "_thread"):
                refs.append((type(o).__name__, weakref.ref(o)))
            elif isinstance(o, (set, frozenset, BaseException)) and o:
                refs.append((type(o).__name__, weakref.ref(o)))
        except TypeError:
            pass
        if isinstance(o, (str, bytes, bytearray, memoryview, int, float)):
            continue
        if isinstance(o, JSArray):
            todo += [x for x in list(o.values())[:limit]]
        elif isinstance(o, abc.Mapping):
            for a, b in o.items():
                todo += [a, b]
        elif isinstance(o, (abc.Sequence, abc.Set, deque)):
            todo += list(o)[:limit]
        elif isinstance(o, BaseException):
            todo += [getattr(o, "cause", None), o.__cause__, o.__context__]
        if isinstance(o, (JSError, JSErrorData)):
            todo.append(o.cause)
        b = getattr(o, "backing_buffer", None)
        if b is not None:
            todo.append(b)
    return keep


def strip(e):
    """Nothing but the message survives an exception."""
    return f"{type(e).__name__}"


class World:
    def __init__(self, s, env):
        self.env = env
        feats = G.features_of(s["f"])
        steps = [canary_step, G.cust_step, *default_encode_steps]
        self.features = feats
        self.enc = configure(Encoder, steps, s["how"], features=feats)
        self.dec = configure(Decoder, [TagReader(
            host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler().deserialize_host_object)], s["how"])

    def settle(self, refs, what):
        gc.collect()
        alive = sorted({n for n, w in refs if w() is not None})
        self.env.log(what, len(refs), len(alive))
        check(not alive, "kept-alive", lambda: f"{what}: {alive} can still be reached after everything was dropped")

    def call(self, fn, x):
        """Run it with the faults ``x`` stands for; returns how it went."""
        how = x % 8
        if how < 4:
            try:
                fn()
                return "ok"
            except Violation:
                raise
            except Exception as e:
                return strip(e)
        inj = []
        if how == 4:
            inj = [[0, 1 + x // 8 % 3000, ["interrupt", "memory"][x // 16 % 2]]]
        sc = sched.Sched({"op": 0, "sig": 0, "sw": [], "inj": inj}, self.env)
        out = []

        def body(t):
            if how == 5:
                t.stack(10 + x // 8 % 120)
            try:
                fn()
                out.append("ok")
            except (Violation, sched.Kill):
                raise
            except BaseException as e:
                out.append(strip(e))
            t.max_depth = None

        t = sc.spawn("call", body)
        sc.run()
        if t.error is not None:
            raise t.error
        if how == 5 and out[0] != "ok":
            self.env.fault("stack")
        return out[0]

    # each op keeps what it makes in its own frames and returns only weak references

    def enc_op(self, x, spec):
        refs = []

        def go():
            v = self.value(x, spec)
            if x // 3 % 4 == 0:  # classes which exist only as long as their instances
                cls = type("Local", (LOCAL[x // 12 % len(LOCAL)],), {})
                refs.append(("class", weakref.ref(cls)))
                o = cls()
                v = JSObject(a=v, b=o, c=[o])
            track(v, refs)
            how = x // 100 % 5
            enc = self.enc
            if how == 1:
                self.env.fault("step_raises")
                st = Step(1 + x // 500 % 12)
                refs.append(("step", weakref.ref(st)))
                dumps(v, encode_steps=[st, canary_step, G.cust_step, *default_encode_steps])
            elif how == 2:
                self.env.fault("unsupported_value")
                o = Odd()
                refs.append(("unsupported value", weakref.ref(o)))
                enc.encode([v, JSObject(a=o)])
            elif how == 3:
                st = Step(10**9)
                refs.append(("step", weakref.ref(st)))
                e2 = Encoder(encode_steps=[st, canary_step, G.cust_step,
                                           serialize_js_array_buffer_views_as_nodejs_host_object,
                                           *default_encode_steps], features=self.features)
                e2.encode(v)
            else:
                d = enc.encode(v)
                if x // 500 % 2:
                    b = loads(d)
                    track(b, refs)
        out = self.call(go, x)
        return refs, out

    def value(self, x, spec):
        g = G.Graph(spec)
        v = g.build()
        c = Canary(x)
        k = x // 7 % 6
        if k == 0:
            return JSMap([(c, v), (v, c)])
        if k == 1:
            return [c, v, {"c": c}]
        if k == 2:
            return JSArray([v, c, JSHole, v])
        if k == 3:
            return JSObject({"a": v, 3: c, 9000: v})
        if k == 4:
            return JSSet([c, v])
        return v

    def dec_op(self, x, src):
        refs = []
        env = self.env

        def go():
            data, g = W.build(src)
            if data is None:
                return
            del g
            how = x // 100 % 6
            r = random.Random(x)
            if how == 1:
                env.fault("damage")
                data = bytearray(data)
                for _ in range(r.choice([1, 1, 3])):
                    data[r.randrange(len(data))] ^= 1 << r.randrange(8)
                if r.random() < 0.3:
                    del data[r.randrange(len(data)):]
                data = bytes(data)
            how2 = x // 600 % 4
            if how2 == 0:
                buf = Data(data)
                refs.append(("input", weakref.ref(buf)))
            elif how2 == 1:
                buf = memoryview(bytearray(data))
                refs.append(("input", weakref.ref(buf)))
            elif how2 == 2:
                import array
                buf = array.array("B", data)
                refs.append(("input", weakref.ref(buf)))
            else:
                buf = None
                fp = Reader(data, x // 2400 % 5 == 0)
                refs.append(("reader", weakref.ref(fp)))
            if how in (0, 1, 2):
                v = self.dec.decode(buf) if buf is not None else self.dec.decode(fp=fp)
            elif how == 3:
                env.fault("step_raises")
                st = Step(1 + x // 2400 % 12)
                refs.append(("step", weakref.ref(st)))
                kw = dict(decode_steps=[st, TagReader(
                    host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler().deserialize_host_object)])
                v = loads(buf, **kw) if buf is not None else loads(fp=fp, **kw)
            else:
                h = Handler(x // 2400 % 4)
                refs.append(("handler", weakref.ref(h)))

                def make_map(*a):
                    return JSMap(*a)

                def make_err(e):
                    return JSError.builder(e)
                refs.append(("factory", weakref.ref(make_map)))
                refs.append(("builder", weakref.ref(make_err)))
                kw = dict(host_object_deserializer=h.deserialize_host_object, jsmap_type=make_map,
                          js_error_builder=make_err)
                v = loads(buf, **kw) if buf is not None else loads(fp=fp, **kw)
            track(v, refs)
            if how == 2:
                self.enc.encode(v)
        return refs, self.call(go, x)

    def cmp_op(self, x, spec):
        refs = []
        env = self.env

        def go():
            a = self.value(x, spec)
            b = self.value(x, spec)
            for o in track(a, refs) + track(b, refs):
                for m in ("as_python_pattern", "__copy__", "__hash__"):
                    try:
                        getattr(o, m)()
                    except (AttributeError, TypeError, ValueError):  # not for this object
                        pass
            o = None
            how = x // 100 % 4
            if how == 1:
                env.fault("element_raises")
                f = Fickle(("eq",) if x // 400 % 2 else ("eq", "repr"))
                refs.append(("element", weakref.ref(f)))
                a, b = JSObject(v=a, f=f), JSObject(v=b, f=Fickle(("eq",)))
            elif how == 2:
                a, b = JSArray([a, b, a]), JSArray([a, b, b])
            elif how == 3:
                a, b = JSMap([(1, a)]), JSMap([(1, b)])
            track(a, refs)
            track(b, refs)
            with js_repr_settings(maxlevel=3):
                if x // 800 % 2:
                    a == b  # noqa: B015
                    repr(a)
                else:
                    repr(b)
                    b == a  # noqa: B015
        return refs, self.call(go, x)

    def rep_op(self, x, what, spec):
        """The same call again and again."""
        x = x // 8 * 8  # no threads
        once = self.enc_op if what == 0 else self.dec_op

        def fn():
            once(x, spec)
        env = self.env
        self.env = Quiet
        try:
            for _ in range(4):
                fn()
            gc.collect()
            for windows in range(12):  # bounded caches fill up; anything else stops growing
                n0 = len(gc.get_objects())
                m0 = sys.getallocatedblocks()
                for _ in range(REPS):
                    fn()
                gc.collect()
                n = len(gc.get_objects()) - n0
                m = sys.getallocatedblocks() - m0
                if n < REPS and m < REPS:
                    break
        finally:
            self.env = env
        env.probe("repeated_calls", REPS)
        env.log("rep", what)
        check(n < REPS, "grows", f"{n} objects more after {REPS} repetitions, again and again")
        check(m < REPS, "grows", f"{m} blocks of memory more after {REPS} repetitions, again and again")

    def buf_op(self, x, ops):
        """Buffers, views and what they borrow."""
        refs = []
        mem = bytearray(range(32))

        def go():
            a = JSArrayBuffer(mem, copy_data=False)
            refs.append(("buffer", weakref.ref(a)))
            things = [a]
            for op, p, q in ops:
                t = things[q % len(things)]
                try:
                    if op < 2:
                        n = JSUint16Array(a, p % 20, q if q < 5 else None)
                    elif op == 2:
                        n = JSDataView(a, p % 40, q if q < 5 else None)
                    elif op == 3:
                        n = t.data if isinstance(t, JSArrayBuffer) else t.get_buffer()
                    elif op == 4:
                        self.enc.encode([t, a])
                        continue
                    elif op == 5:
                        n = JSArrayBuffer(t.data if isinstance(t, JSArrayBuffer) else b"ab", max_byte_length=64)
                        n.resize(p * 2)
                    elif op == 6:
                        repr(t)
                        t == a  # noqa: B015
                        continue
                    elif op == 7:
                        with t.get_buffer() as g:
                            g[p] = q
                        continue
                    elif op == 8:
                        n = loads(self.enc.encode([a, t])).array[1]
                    else:
                        self.enc.encode([t, Odd()])
                        continue
                except Exception as e:  # refused
                    strip(e)
                    self.env.fault("refused")
                    continue
                things.append(n)
                try:
                    refs.append((type(n).__name__, weakref.ref(n)))
                except TypeError:
                    pass
        out = self.call(go, x)
        gc.collect()
        try:
            mem.append(0)
        except BufferError:
            raise Violation("kept-alive", "the memory of a buffer is still borrowed after buffer and views were dropped")
        return refs, out

    # containers hold exactly what they show

    def cont_op(self, x, kind, ops):
        env = self.env
        env.state("cont", kind)
        made = {}
        c = {"obj": JSObject, "arr": JSArray, "map": JSMap, "set": JSSet}[kind]()
        n = 0

        def new():
            nonlocal n
            n += 1
            o = Canary(n)
            made[n] = weakref.ref(o)
            return o

        def source(k, at):
            for i in range(k):
                if i == at:
                    env.fault("source_raises")
                    raise Failed("source")
                yield (KEYS[(x + i) % len(KEYS)], new()) if kind in ("obj", "arr") else (new(), new()) if kind == "map" else new()

        for op, p, q in ops:
            self.edit(c, kind, op, p, q, new, source)
            gc.collect()
            alive = {i for i, w in made.items() if w() is not None}
            shown = set()
            self.shown(c, kind, shown)
            env.log(op, len(alive), len(shown))
            env.state(kind, op % 24, len(alive) > len(shown))
            check(alive == shown, "kept-alive" if alive - shown else "lost",
                  lambda: f"{kind} after operation {op} ({p}, {q}): holds {sorted(alive)} but shows {sorted(shown)}")
            for i in list(made):
                if i not in alive:
                    del made[i]
                    env.nontrivial = True
        refs = [("content", w) for w in made.values()]
        try:
            refs.append((kind, weakref.ref(c)))
        except TypeError:
            pass
        return refs, "ok"

    @staticmethod
    def shown(c, kind, out):
        if kind == "set":
            xs = list(c)
        else:
            xs = [y for kv in c.items() for y in kv]
        if kind in ("obj", "arr"):
            xs += list(c.array.elements().values())
        for o in xs:
            if type(o) is Canary:
                out.add(o.n)

    def edit(self, c, kind, op, p, q, new, source):
        try:
            self.edit1(c, kind, op, p, q, new, source)
        except Violation:
            raise
        except Exception as e:
            strip(e)
            self.env.probe("refused")

    def edit1(self, c, kind, op, p, q, new, source):
        if op == 20:
            c.clear()
            return
        if op == 21:
            repr(c)
            c == c  # noqa: B015
            c == type(c)(c)  # noqa: B015
            return
        if op == 22:
            self.enc.encode([c, c])
            return
        if op == 23:
            self.enc.encode([c, Odd()])
            return
        if kind in ("obj", "arr"):
            k = KEYS[p % len(KEYS)]
            ks = list(c)
            old = ks[p % len(ks)] if ks else k
            a = c.array
            if op < 5:
                c[k] = new()
            elif op == 5:
                del c[old]
            elif op == 6:
                c.pop(old)
            elif op == 7:
                c.popitem()
            elif op == 8:
                c[old] = new()
            elif op == 9:
                c.setdefault(k, new())
            elif op == 10:
                c.update(source(q, p % 8))
            elif op == 11:
                c.update(source(q, -1))
            elif op == 12:
                a.resize(p % 30)
            elif op == 13:
                a.append(new())
            elif op == 14:
                a.extend([new() for _ in range(q)])
            elif op == 15:
                a.insert(p % 12, new())
            elif op == 16:
                a.pop()
            elif op == 17:
                a.reverse()
            elif op == 18:
                if len(a):
                    a[p % len(a)] = JSHole
            elif op == 19:
                a.clear()
        elif kind == "map":
            ks = list(c)
            old = ks[p % len(ks)] if ks else 1
            k = [p, float(p), f"{p}", new(), new()][q % 5]
            if op < 6:
                c[k] = new() if q % 3 else p
            elif op < 8:
                del c[old]
            elif op < 10:
                c.pop(old)
            elif op == 10:
                c.popitem()
            elif op == 11:
                c[old] = new()
            elif op < 14:
                c.update(source(q, p % 8))
            elif op == 14:
                c.update(source(q, -1))
            elif op < 17:
                c.setdefault(k, new())
            elif op == 17:
                c.setdefault(old, new())
            elif op == 18:
                k in c  # noqa: B015
                c.get(new())
            else:
                c.pop(new(), None)
        else:
            ms = list(c)
            old = ms[p % len(ms)] if ms else 1
            k = [p, float(p), new(), new(), new()][q % 5]
            if op < 6:
                c.add(k)
            elif op < 8:
                c.discard(old)
            elif op < 10:
                c.remove(old)
            elif op == 10:
                c.pop()
            elif op == 11:
                c.add(old)
            elif op < 14:
                c |= source(q, p % 8)
            elif op == 14:
                c |= source(q, -1)
            elif op == 15:
                c -= JSSet(ms[:q % 3])
            elif op == 16:
                c &= JSSet(ms[q % 3:])
            elif op == 17:
                c ^= JSSet([*ms[: q % 4], new()])
            elif op == 18:
                new() in c  # noqa: B015
            else:
                c.discard(new())


LOCAL = [list, dict, str, int, float, bytes, bytearray, set, frozenset, tuple, JSObject, JSArray, JSMap, JSSet,
         ValueError, G.UserSeq, G.UserMap, deque]


class _Quiet:
    def fault(self, *a):
        pass

    log = probe = state = fault


Quiet = _Quiet()
REPS = 48
KEYS = ["a", "b", 0, 1, 2, 3, 5, "7", 16, 17, 40.0, "x", 900, 5000, "01", -1]


def run(s, env):
    w = World(s, env)
    for op in s["ops"]:
        k, x = op[0], op[1]
        if k == "rep":
            w.rep_op(x, op[2], op[3])
            continue
        refs, out = getattr(w, k + "_op")(x, *op[2:])
        env.log(k, out)
        env.state(k, x // 100 % 6, out, min(9, len(refs)))
        if out != "ok":
            env.nontrivial = True
        w.settle(refs, k)
