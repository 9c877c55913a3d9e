"""C07: a failed call leaves no trace in later or enclosing calls."""
from __future__ import annotations

import asyncio
import datetime as dt
import gc
import io
import random
from collections import abc

import graphs as G
import sched
import wire as W
from core import configure, Violation, check, short

from v8serialize import (
    Decoder,
    DecodeV8SerializeError,
    EncodeV8SerializeError,
    Encoder,
    V8SerializeError,
    default_encode_steps,
    dumps,
    loads,
)
from v8serialize.constants import JS_OBJECT_KEY_TAGS, JSRegExpFlag, SerializationErrorTag, SerializationTag
from v8serialize.decode import TagReader, UnhandledTagDecodeV8SerializeError
from v8serialize.encode import (
    FeatureNotEnabledEncodeV8SerializeError,
    TagWriter,
    UnhandledValueEncodeV8SerializeError,
    serialize_object_references,
)
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSError,
    JSErrorData,
    JSMap,
    JSObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
)
from props.c01 import EXPECT

PROP = "C07"
RUNS = {"quick": 6000, "thorough": 300000}
CHUNK = 70
RULE = (
    "scenario = a history of calls on one long-lived Encoder, Decoder, set of steps and value "
    "graphs; any call may fail: a step, container, host object handler, error builder, factory, "
    "reader or time zone raises at a seeded point, data is damaged, a value is unsupported, the "
    "stack or memory runs out, an exception is injected at a seeded line, a nested call fails "
    "inside a step, or a step catches a refusal and substitutes; non-trivial when at least one "
    "call failed; distinct by trace digest"
)
STATE_MEASURE = "set of (fault kind, exception type, point bucket) per history"
COMPONENTS = {
    "v8serialize encode/decode/extensions/jstypes": "real",
    "steps, containers, handlers and readers that fail": "harness",
    "stack, memory, interrupts": "simulated (sim/sched.py)",
}
ASSUMPTIONS = [
    "RecursionError raised while decoding is reported as a DecodeV8SerializeError, by design",
    "exceptions raised by __hash__/__eq__ of a value while looking for duplicates are ignored, by design",
    "a step that catches an error after part of its value was written gets no rollback",
]


class Odd:
    pass


class UserError(Exception):
    pass


class UserBase(BaseException):
    pass


EXCS = [
    lambda: UserError("u"), lambda: UserBase("b"), lambda: ValueError("v"), lambda: TypeError("t"),
    lambda: KeyError("k"), lambda: IndexError("i"), lambda: AttributeError("a"),
    lambda: AssertionError("s"), lambda: LookupError("l"), lambda: OSError(5, "io"),
    lambda: EOFError("e"), lambda: MemoryError("m"), lambda: KeyboardInterrupt(),
    lambda: SystemExit(3), lambda: GeneratorExit(), lambda: asyncio.CancelledError(),
    lambda: BufferError("bf"), lambda: OverflowError("o"), lambda: ReferenceError("r"),
    lambda: NotImplementedError("n"), lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "z"),
    lambda: V8SerializeError("lib"), lambda: EncodeV8SerializeError("enc"),
    lambda: UnhandledValueEncodeV8SerializeError("unh", value=5),
    lambda: FeatureNotEnabledEncodeV8SerializeError("f", feature_required=G.all_features()),
    lambda: DecodeV8SerializeError("dec", data=b"", position=0),
    lambda: UnhandledTagDecodeV8SerializeError(
        "tag", tag=SerializationTag.kNull, data=b"", position=0),
    lambda: StopIteration("stop"), lambda: RecursionError("deep"),
]
SWEEP = 9  # points tried one after the other
N_DEC_EXC = len(EXCS) - 2  # the last two change type inside generators / at the top


def make_exc(x, dec=False):
    return EXCS[x % (N_DEC_EXC if dec else len(EXCS))]()


class Ctrl:
    """What the steps should do at which of their invocations."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0
        self.at = None
        self.before = True
        self.act = None
        self.host = None
        self.build = None
        self.make = None
        self.tail = None
        self.fired = False
        self.depth = 0

    def point(self, before):
        if self.depth:
            return
        if before:
            self.n += 1
        if self.at is not None and self.n == self.at and self.before == before and not self.fired:
            self.fired = True
            self.depth += 1
            try:
                self.act()
            finally:
                self.depth -= 1


class Host:
    def __init__(self, data):
        self.data = data


class PropList:
    """Written as an object with whatever keys it has."""

    def __init__(self, items):
        self.items = items


class Tolerant(PropList):
    """Written property by property, leaving out those with refused keys."""


class TolErr:
    """Written as an error, without its cause if that is refused."""

    def __init__(self, cause):
        self.cause = cause


class Refusable:
    """Marks values (by id) for which a step has a substitute."""

    def __init__(self):
        self.ids: dict[int, object] = {}
        self.seen = 0


# -- containers which fail while they are read --------------------------------


def failing(kind, v, k, exc):
    """A container of kind which raises exc at its k-th element."""
    items = [v, 1, "x", v]
    k %= 5

    def gen(pairs):
        for i, x in enumerate(items):
            if i == k:
                raise exc
            yield (f"k{i}", x) if pairs else x
        raise exc

    class L(list):
        def __iter__(self):
            return gen(False)

    class C(abc.Collection):
        def __contains__(self, x):
            return False

        def __len__(self):
            if kind == "len":
                raise exc
            return len(items)

        def __iter__(self):
            return gen(False)

    class S(abc.Set):
        __hash__ = object.__hash__
        __contains__ = C.__contains__
        __len__ = C.__len__
        __iter__ = C.__iter__

    class M(abc.Mapping):
        def __getitem__(self, x):
            raise exc

        def __len__(self):
            return len(items)

        def __iter__(self):
            return gen(False)

    class M2(M):
        def items(self):
            return gen(True)

    class O(JSObject):
        def items(self):
            return gen(True)

    class JM(JSMap):
        def items(self):
            return gen(True)

    class E(JSErrorData):
        @property
        def stack(self):
            raise exc

        @stack.setter
        def stack(self, x):
            pass

    class B(JSArrayBuffer):
        @property
        def data(self):
            raise exc

    class Z(dt.tzinfo):
        def utcoffset(self, d):
            raise exc

        def dst(self, d):
            return None

        def tzname(self, d):
            return "Z"

    if kind == "list":
        return L(items)
    if kind in ("coll", "len"):
        return C()
    if kind == "set":
        return S()
    if kind == "map":
        return M()
    if kind == "map2":
        return M2()
    if kind == "obj":
        return O()
    if kind == "jsmap":
        return JM()
    if kind == "err":
        return E("m")
    if kind == "buf":
        return B(b"abc")
    if kind == "zone":
        return dt.datetime(2020, 1, 1, tzinfo=Z())
    raise AssertionError(kind)


CONTS = ["list", "coll", "len", "set", "map", "map2", "obj", "jsmap", "err", "buf", "zone"]


def refusable(kind):
    """A value refused before anything was written, by the default steps."""
    if kind == "odd":
        return Odd()
    if kind == "f16":
        return G.view_class("h")[0](JSArrayBuffer(b"abcd"))
    if kind == "sets":
        return JSRegExp("x", JSRegExpFlag.UnicodeSets)
    if kind == "sab":
        return JSSharedArrayBuffer(-1)
    if kind == "zone":
        return failing("zone", None, 0, UserError("zone"))
    if kind == "surrogate":
        return "\ud800"
    if kind == "pyre":
        import re
        return re.compile(b"x")
    if kind == "cls":
        return Odd
    if kind == "complex":
        return 1j
    raise AssertionError(kind)


REFUSED = ["odd", "f16", "sets", "sab", "zone", "surrogate", "cls", "complex"]
KEYS = ["list", "map", "obj", "err", "pyexc", "re", "date", "none", "true", "bytes", "bigint",
        "set", "ref", "odd", "wrap", "shared"]


def key_value(kind, v):
    """Values which cannot be property keys (views are not here: they are two values)."""
    return {
        "list": lambda: [1, 2], "map": lambda: JSMap([(1, 2)]), "obj": lambda: JSObject(a=1),
        "err": lambda: JSError("m", stack="s"), "pyexc": lambda: ValueError("x"),
        "re": lambda: JSRegExp("a"), "date": lambda: G.utc(10**15), "none": lambda: None,
        "true": lambda: True, "bytes": lambda: b"key", "bigint": lambda: JSArrayBuffer(b"q"),
        "set": lambda: {1}, "ref": lambda: v, "odd": Odd, "wrap": lambda: JSArray([1]),
        "shared": lambda: JSSharedArrayBuffer(3),
    }[kind]()


EOPS = ["estep", "estep", "econt", "unsup", "etail", "tolerr", "ehost", "estack", "einj", "efeat", "enest", "subst",
        "keys", "tolerant", "circ"]
DOPS = ["damage", "damage", "dstep", "dstep", "dhost", "derr", "dfact", "dread", "dstack", "dinj",
        "dnest", "dcatch"]


def gen(r, i, tier):
    ng = r.randrange(1, 4)
    graphs = [G.flavoured(r, 0.15, G.gen_graph(r, size=r.choice([1, 2, 4, 6, 10, 15]), maxwidth=6)) for _ in range(ng)]
    for g in graphs:
        for nd in g["nodes"]:
            if nd[0] == "sparr" and nd[1] < 2**31:
                nd[1] = min(nd[1], 300)
            elif nd[0] == "sparr":
                nd[2] = nd[2][:2]
    ops = []
    pool = [r.choice(EOPS + DOPS) for _ in range(r.randrange(1, 5))]
    for _ in range(r.randrange(1, 7)):
        k = r.choice(pool)
        # [kind, graph, point, exception, variant]
        ops.append([k, r.randrange(ng), int(2 ** r.uniform(0, 6)) if r.random() < 0.6
                    else r.randrange(10**6), r.randrange(len(EXCS)), r.randrange(10**6)])
    return {"graphs": graphs, "feats": G.gen_features(r), "ops": ops,
            "mode": (i // CHUNK) % 4, "fresh": r.randrange(2)}


class World:
    def __init__(self, s, env):
        self.env = env
        self.mode = s["mode"]
        self.c = c = Ctrl()
        self.d = d = Ctrl()
        self.ref = ref = Refusable()
        self.feats = G.features_of(s["feats"])
        self.states = set()

        def estep(value, /, ctx, next):
            c.point(True)
            next(value)
            c.point(False)

        def special(value, /, ctx, next):
            if type(value) in (Host, PropList, Tolerant, TolErr) and value in ctx.stream.objects:
                return ctx.stream.write_object_reference(obj=value)
            if type(value) is Host:
                def write(*, stream, value):
                    if c.host:
                        c.host(stream)
                    stream.write_varint(len(value.data))
                    stream.data.extend(value.data)
                return ctx.stream.write_host_object(value, serializer=write)
            if type(value) is PropList:
                return ctx.stream.write_js_object(value.items, ctx=ctx, identity=value)
            if type(value) is Tolerant:
                st = ctx.stream
                st.write_tag(SerializationTag.kBeginJSObject)
                st.objects.record_reference(value)
                n = 0
                for k, x in value.items:
                    try:
                        with st.constrain_tags(JS_OBJECT_KEY_TAGS):
                            ctx.encode_object(k)
                    except Exception:  # noqa: BLE001
                        continue
                    ctx.encode_object(x)
                    n += 1
                st.write_tag(SerializationTag.kEndJSObject)
                return st.write_varint(n)
            if type(value) is TolErr:
                st = ctx.stream
                st.write_tag(SerializationTag.kError)
                st.write_varint(SerializationErrorTag.Cause)
                try:
                    with st.objects.record_acyclic_reference(value):
                        ctx.encode_object(value.cause)
                except Exception:  # noqa: BLE001
                    st.write_constant(SerializationTag.kNull)
                return st.write_varint(SerializationErrorTag.End)
            return next(value)

        def subst(value, /, ctx, next):
            if ref.ids and id(value) in ref.ids:
                try:
                    return next(value)
                except Exception as e:  # noqa: BLE001
                    ref.seen += 1
                    if isinstance(e, UnhandledValueEncodeV8SerializeError):
                        check(e.value is value, "wrong-value",
                              lambda: f"error names {short(e.value)}, not {short(value)}")
                    return next(ref.ids[id(value)])
            return next(value)

        esteps = [estep, subst, special, G.cust_step]
        if s["fresh"] % 2:
            esteps += [serialize_object_references, TagWriter()]
        else:
            esteps += list(default_encode_steps)

        def tail(value, /, ctx, next):
            if c.tail is not None:
                c.fired = True
                raise c.tail
            next(value)

        self.esteps = (*esteps, tail)
        how = s["fresh"] // 2 + len(s["ops"])
        self.enc = configure(Encoder, self.esteps, how, features=self.feats)
        self.plain = (subst, special, G.cust_step, *default_encode_steps)

        def dstep(tag, /, ctx, next):
            d.point(True)
            v = next(tag)
            d.point(False)
            return v

        def host(*, stream):
            if d.host:
                d.host(stream)
            n = stream.read_varint()
            return Host(bytes(stream.read_bytes(n)))

        def build(err):
            if d.build:
                d.build(err)
            return JSError.builder(err)

        def maker(cls):
            def make():
                return d.make(cls) if d.make else cls()
            return make

        self.host = host
        self.tr = TagReader(host_object_deserializer=host, js_error_builder=build,
                            jsmap_type=maker(JSMap), jsset_type=maker(JSSet),
                            js_object_type=maker(JSObject), js_array_type=maker(JSArray))
        self.dec = configure(Decoder, [dstep, self.tr], how // 4)

        def dcatch(tag, /, ctx, next):
            try:
                return next(tag)
            except DecodeV8SerializeError:
                if tag is SerializationTag.kHostObject and ctx.stream.data[ctx.stream.pos - 1] == tag:
                    return ctx.stream.read_host_object(host)
                raise

        self.dec_catch = Decoder([dcatch, TagReader()])

        # what every call gives on its own
        self.items = []
        full = G.all_features()
        for spec in s["graphs"]:
            g = G.Graph(spec)
            v = g.build()
            outcome = g.predict(self.feats)
            g2 = G.Graph(spec)
            g2.build()
            data = None
            if g2.predict(full) == "ok":
                data = dumps(g2.vals[g2.root], encode_steps=self.plain, features=full)
            it = {"g": g, "v": v, "out": outcome, "ref": None, "g2": g2, "data": data, "n": 1, "tags": 1}
            if outcome == "ok":
                it["ref"] = dumps(v, encode_steps=self.plain, features=self.feats)
            self.items.append(it)
        for it in self.items:
            self.clean(it, "first")
            it["n"] = max(1, c.n)
            it["tags"] = max(1, d.n)

    # -- calls that nothing disturbs -------------------------------------------

    def clean(self, it, where):
        """The results of untroubled calls on the shared codec and values."""
        self.c.reset()
        self.d.reset()
        self.clean_encode(it, where)
        self.clean_decode(it, where)

    def clean_encode(self, it, where):
        if it["out"] == "ok":
            b = bytes(self.enc.encode(it["v"]))
            check(b == it["ref"], "bytes-differ",
                  lambda: f"{where}: {b.hex()[:300]} before: {it['ref'].hex()[:300]}")
            if it["data"] is not None and where == "first":
                it["g"].match(loads(b), features=self.feats)
        else:
            try:
                b = self.enc.encode(it["v"])
            except EXPECT[it["out"]]:
                pass
            except Violation:
                raise
            except BaseException as e:  # noqa: BLE001
                raise Violation("wrong-error", f"{where}: expected {it['out']}, got {short(e)}") from e
            else:
                raise Violation("not-failed", f"{where}: expected {it['out']}")

    def clean_decode(self, it, where):
        if it["data"] is not None:
            it["g2"].match(self.dec.decodes(it["data"]), features=G.all_features())
            if where != "nested":
                it["g2"].match(loads(it["data"]), features=G.all_features())

    # -- calls that fail -----------------------------------------------------

    def expect(self, exc, fn, where, what=None):
        """fn must raise exc itself if it was raised at all."""
        try:
            r = fn()
        except Violation:
            raise
        except BaseException as e:  # noqa: BLE001
            if e is exc:
                self.env.fault(what or "callback_raises")
                self.states.add((where, type(exc).__name__))
                strip(e)
                return True, None
            if type(e).__name__ in ("RunTimeout", "HarnessError"):
                raise
            raise Violation("wrong-error", f"{where}: raised {type(exc).__name__}, caller got "
                            f"{type(e).__name__}: {short(str(e), 200)}") from e
        return False, r

    def under(self, fn, spawn):
        """Run fn in a simulated thread, with faults."""
        sc = sched.Sched({"op": 0, "sig": 2 if self.mode == 3 else 0, "sw": [], "inj": spawn.get("inj", [])}, self.env)
        out = []

        def body(t):
            if "stack" in spawn:
                t.stack(spawn["stack"])
            try:
                out.append(("ok", fn()))
            except Violation:
                raise
            except sched.Kill:
                raise
            except BaseException as e:  # noqa: BLE001
                out.append(("error", e))
            t.max_depth = None

        t = sc.spawn("call", body)
        sc.run()
        if t.error is not None:
            raise t.error
        return out[0][0], out[0][1], sc, t

    def do(self, op):
        kind, gi, n, x, y = op
        it = self.items[gi % len(self.items)]
        c, d, env, v = self.c, self.d, self.env, it["v"]
        c.reset()
        d.reset()
        ok = it["out"] == "ok"
        where = kind
        if kind in ("estep", "enest"):
            c.at = 1 + n % it["n"]
            c.before = y % 2 == 0
            if kind == "estep":
                for j in range(1 + y // 2 % SWEEP):
                    exc = make_exc(x + j * (y % 7))
                    c.reset()
                    c.at = 1 + (n + j) % it["n"]
                    c.before = y % 2 == 0

                    def act(exc=exc):
                        raise exc
                    c.act = act
                    raised, r = self.guard(it, lambda: self.expect(exc, lambda: self.enc.encode(v), where, "step_raises"))
                    check(raised or not c.fired, "swallowed", f"{where}: {type(exc).__name__} from a step")
            else:
                c.act = lambda: self.nested(y, x)
                self.guard(it, lambda: self.outer_encode(it, where))
            self.states.add((kind, (c.at).bit_length()))
        elif kind == "econt":
            exc = make_exc(x)
            if isinstance(exc, StopIteration):
                exc = UserError("not stop")
            ck = CONTS[y % len(CONTS)]
            if not ok:
                return
            bad = failing(ck, v, n, exc)
            raised, r = self.expect(exc, lambda: self.enc.encode([v, bad, v]), f"econt {ck}", "container_raises")
            check(raised, "swallowed", f"{where} {ck}: {type(exc).__name__}")
        elif kind == "unsup":
            o = [Odd(), 1j, Odd, NotImplemented, range][y % 5]
            if not ok:
                return
            try:
                self.enc.encode([v, {"k": [o]}, v])
            except UnhandledValueEncodeV8SerializeError as e:
                check(e.value is o, "wrong-value", lambda: f"error names {short(e.value)} not {short(o)}")
                env.fault("unsupported_value")
                strip(e)
            else:
                raise Violation("not-failed", f"{short(o)} was written")
        elif kind == "etail":
            exc = make_exc(x)
            if not ok:
                return
            o = refusable("f16") if y % 3 and "Float16Array" not in str(self.feats) else Odd()
            c.tail = exc
            bad = [o, [o], {"a": o}, JSError("m", cause=o), JSMap([(o, 1)])][n % 5]
            raised, r = self.expect(exc, lambda: self.enc.encode([v, bad, v]), where, "step_raises")
            check(raised, "swallowed", f"{where}: {type(exc).__name__}")
        elif kind == "tolerr":
            self.do_tolerr(it, n, x, y)
        elif kind == "ehost":
            exc = make_exc(x)
            if not ok:
                return

            def fail(stream):
                if n % 2:
                    stream.write_varint(n)
                raise exc
            c.host = fail
            raised, r = self.expect(exc, lambda: self.enc.encode([v, Host(b"abc"), v]), where, "host_serializer_raises")
            check(raised, "swallowed", f"{where}: {type(exc).__name__}")
        elif kind == "efeat":
            f = G.features_of(y % 16)
            try:
                b = dumps(v, encode_steps=self.plain, features=f)
            except (EncodeV8SerializeError, *EXPECT.values()) as e:
                check(it["g"].predict(f) != "ok", "failed", lambda: short(e))
                env.fault("feature_missing")
                strip(e)
            else:
                check(it["g"].predict(f) == "ok", "not-failed", "feature needed")
        elif kind in ("estack", "einj"):
            if kind == "estack":
                spec = {"stack": 3 + n % 60}
            else:
                spec = {"inj": [[0, 1 + n % (400 if self.mode == 3 else 6000), ["interrupt", "memory"][x % 2]]]}
            st, r, sc, t = self.under(lambda: bytes(self.enc.encode(v)), spec)
            self.faulted(it, where, st, r, sc, t, encode=True)
        elif kind == "subst":
            self.do_subst(it, n, x, y)
        elif kind == "keys":
            self.do_keys(it, n, x, y)
        elif kind == "tolerant":
            self.do_tolerant(it, n, x, y)
        elif kind == "circ":
            self.do_circ(it, n, x, y)
        elif it["data"] is None:
            return
        elif kind == "damage":
            data = bytearray(it["data"])
            if y % 2:
                del data[n % len(data):]
            else:
                data[n % len(data)] ^= 1 + x % 255
            outs = []
            for i in range(2):
                try:
                    self.dec.decodes(data)
                    outs.append(None)
                except DecodeV8SerializeError as e:
                    outs.append((type(e), e.message, e.position))
                    env.fault("damaged_data")
                    strip(e)
                self.unlocked(data, "damaged message")
                if i == 0:
                    self.clean_decode(it, "damage")
            check(outs[0] == outs[1], "outcome-differs", lambda: f"{outs}")
        elif kind in ("dstep", "dnest"):
            d.at = 1 + n % it["tags"]
            d.before = y % 2 == 0
            if kind == "dstep":
                for j in range(1 + y // 2 % SWEEP):
                    exc = make_exc(x + j * (y % 7), dec=True)
                    d.reset()
                    d.at = 1 + (n + j) % it["tags"]
                    d.before = y % 2 == 0

                    def dact(exc=exc):
                        raise exc
                    d.act = dact
                    data = bytearray(it["data"])
                    raised, r = self.expect(exc, lambda: self.dec.decodes(data), where, "step_raises")
                    check(raised or not d.fired, "swallowed", f"{where}: {type(exc).__name__} from a step")
                    self.unlocked(data, "message")
            else:
                d.act = lambda: self.nested(y, x)
                r = self.dec.decodes(it["data"])
                it["g2"].match(r, features=G.all_features())
            self.states.add((kind, (d.at).bit_length()))
        elif kind in ("dhost", "dcatch"):
            h = Host(b"abc" * (n % 3))
            data = dumps([it["g2"].vals[it["g2"].root], h, [h], it["g2"].vals[it["g2"].root], h],
                         encode_steps=self.plain, features=G.all_features())
            if kind == "dhost":
                exc = make_exc(x, dec=True)

                def dfail(stream):
                    if n % 2:
                        stream.read_varint()
                    raise exc
                d.host = dfail
                raised, r = self.expect(exc, lambda: self.dec.decodes(data), where, "host_deserializer_raises")
                check(raised, "swallowed", f"{where}: {type(exc).__name__}")
                d.reset()
                r = self.dec.decodes(data)
            else:
                try:
                    loads(data)
                except DecodeV8SerializeError as e:
                    env.fault("no_host_deserializer")
                    strip(e)
                else:
                    raise Violation("not-failed", "host object without a deserializer")
                r = self.dec_catch.decodes(data)
            check(type(r[1]) is Host and r[1].data == h.data and r[2][0] is r[1] and r[4] is r[1],
                  "value", lambda: f"{where}: {short(r[1])}, {short(r[2])}, {short(r[4])}")
            it["g2"].match(r[0], features=G.all_features())
            tracked = it["g2"].nodes[it["g2"].root][0] in ("list", "obj", "map", "mset", "arr", "ab")
            check(not tracked or r[3] is r[0], "identity", f"{where}: back reference after a host object")
        elif kind in ("derr", "dfact"):
            exc = make_exc(x, dec=True)
            count = [0]
            fired = [False]

            def boom():
                count[0] += 1
                if count[0] == 1 + n % 4:
                    fired[0] = True
                    raise exc
            if kind == "derr":
                d.build = lambda err: boom()
            elif y % 2:
                def make(cls):
                    boom()
                    return cls()
                d.make = make
            else:
                def make(cls):
                    class Failing(cls):
                        def __setitem__(self, k, val):
                            boom()
                            super().__setitem__(k, val)

                        def add(self, val):
                            boom()
                            super().add(val)
                    return Failing()
                d.make = make
            raised, r = self.expect(exc, lambda: self.dec.decodes(it["data"]), where, "factory_raises")
            check(raised or not fired[0], "swallowed", f"{where}: {type(exc).__name__}")
        elif kind == "dread":
            exc = make_exc(x)

            class F:
                def read(self, *a):
                    raise exc
            raised, r = self.expect(exc, lambda: self.dec.decode(F()), where, "read_raises")
            check(raised, "swallowed", f"{where}: {type(exc).__name__}")
            r = self.dec.decode(io.BytesIO(it["data"]))
            it["g2"].match(r, features=G.all_features())
        elif kind in ("dstack", "dinj"):
            if kind == "dstack":
                spec = {"stack": 3 + n % 60}
            else:
                spec = {"inj": [[0, 1 + n % (300 if self.mode == 3 else 4000), ["interrupt", "memory"][x % 2]]]}
            data = bytearray(it["data"])
            st, r, sc, t = self.under(lambda: self.dec.decodes(data), spec)
            self.faulted(it, where, st, r, sc, t, encode=False)
            self.unlocked(data, "message")

    def guard(self, it, fn):
        """fn, for a value which may be one that cannot be written at all."""
        if it["out"] == "ok":
            return fn()
        try:
            return fn()
        except Violation as v:
            e = v.__cause__
            if isinstance(e, EXPECT[it["out"]]):
                return False, None
            raise
        except EXPECT[it["out"]]:
            return True, None

    def outer_encode(self, it, where):
        b = bytes(self.enc.encode(it["v"]))
        check(b == it["ref"], "bytes-differ", lambda: f"around a nested call: {b.hex()[:300]} alone "
              f"{it['ref'].hex()[:300]}")
        return False, b

    def nested(self, y, x):
        """A call on the same codec made by a step; some fail, and that is caught."""
        it = self.items[y % len(self.items)]
        k = (y // 7) % 6
        self.env.probe("nested_calls")
        if k == 0:
            self.clean_encode(it, "nested")
        elif k == 1:
            self.clean_decode(it, "nested")
        elif k == 2:
            try:
                self.enc.encode([it["v"], Odd(), it["v"]])
            except (EncodeV8SerializeError, *EXPECT.values()):
                self.env.fault("nested_failure")
        elif k == 3 and it["data"]:
            try:
                self.dec.decodes(it["data"][: x % len(it["data"])])
            except DecodeV8SerializeError:
                self.env.fault("nested_failure")
        elif k == 4:
            exc = make_exc(x)
            self.c.host, old = (lambda stream: (_ for _ in ()).throw(exc)), self.c.host
            if isinstance(exc, (StopIteration, GeneratorExit)):
                exc = UserError("x")
            try:
                self.enc.encode([it["v"], Host(b"z")])
            except BaseException as e:  # noqa: BLE001
                check(e is exc or it["out"] != "ok", "wrong-error", lambda: f"nested: {short(e)}")
                self.env.fault("nested_failure")
            finally:
                self.c.host = old
        else:
            try:
                self.enc.encode([PropList([(it["v"], 1), ([], 2)])])
            except BaseException as e:  # noqa: BLE001
                check(isinstance(e, (EncodeV8SerializeError, *EXPECT.values())), "wrong-error",
                      lambda: f"nested keys: {short(e)}")
                self.env.fault("nested_failure")

    def faulted(self, it, where, st, r, sc, t, encode):
        fired = [k for _, _, k in sc.fired]
        if st == "error":
            names = {"interrupt": sched.Interrupt, "memory": MemoryError}
            allowed = [names[k] for k in fired]
            if t.overflows:
                self.env.fault("stack_overflow")
                allowed += [RecursionError, DecodeV8SerializeError]
            if not isinstance(r, tuple(allowed) or ()):
                if encode and it["out"] != "ok" and isinstance(r, EXPECT[it["out"]]):
                    return
                raise Violation("wrong-error", f"{where}: {fired or 'stack'} became "
                                f"{type(r).__name__}: {short(str(r), 200)}") from r
            self.states.add((where, type(r).__name__, min(sc.steps, 5000).bit_length()))
            strip(r)
            return
        check("interrupt" not in fired, "swallowed", f"{where}: interrupt")
        if encode:
            check(it["out"] == "ok", "not-failed", f"{where}: expected {it['out']}")
            it["g"].match(loads(r), features=self.feats)
        else:
            it["g2"].match(r, features=G.all_features())

    # -- steps which catch refusals --------------------------------------------

    def same(self, where, actual, wanted, env_fault):
        self.ref.seen = 0
        b = bytes(self.enc.encode(actual))
        seen = self.ref.seen
        self.ref.ids = {}
        w = bytes(self.enc.encode(wanted))
        check(b == w, "substitute-differs", lambda: f"{where}: {b.hex()[:400]} wanted {w.hex()[:400]}")
        if seen:
            self.env.fault(env_fault)
        return b

    def do_subst(self, it, n, x, y):
        if it["out"] != "ok":
            return
        v = it["v"]
        kinds = [REFUSED[(n + j * x) % len(REFUSED)] for j in range(1 + y % 3)]
        vals = [refusable(k) for k in kinds]
        f = self.feats
        subs: list = []
        ids = {}
        for j, (k, o) in enumerate(zip(kinds, vals)):
            sub = ["s", None, 5, v][(y // 3 + j) % 4]
            wr = (k == "f16" and "Float16Array" in str(f)) or (k == "sets" and "RegExpUnicodeSets" in str(f))
            if wr:
                subs.append(o)
            else:
                subs.append(ids.setdefault(id(o), sub))

        def shape(xs):
            if y % 5 == 0:
                return [v, *xs, v, *xs, [v]]
            if y % 5 == 1:
                return JSMap([(1, v), *((f"k{i}", x) for i, x in enumerate(xs)), (2, v)])
            if y % 5 == 2:
                e = JSError("m", cause=JSArray([xs[0], v]))
                return [e, e, *xs, v]
            if y % 5 == 3:
                return JSObject(a=v, b=list(xs), c=v, d=JSArray(xs))
            # (the last item keeps the tuple from being equal to v: equal tuples are merged)
            return [v, JSObject(a=[xs[0]]), v, (*xs, "end of the substitutes")]

        self.ref.ids = ids
        self.same(f"subst {kinds}", shape(vals), shape(subs), "refusal_caught")

    def do_keys(self, it, n, x, y):
        if it["out"] != "ok":
            return
        v = it["v"]
        kinds = [KEYS[(n + j * (1 + x % 7)) % len(KEYS)] for j in range(1 + y % 4)]
        keys = [key_value(k, v) if not (k == "ref" and not isinstance(v, (list, JSObject, JSMap, JSSet)))
                else [9] for k in kinds]
        names = [f"key{j}" for j in range(len(keys))]

        def shape(ks):
            items = []
            for j, k in enumerate(ks):
                items.append((k, v))
                items.append((f"p{j}", j))
            after = [a if not isinstance(a, Odd) else 0 for a in keys] if y % 3 else []
            return [v if y % 2 else 1, PropList(items), v, *after, *after]

        wanted = shape(names)
        # the refused key objects may also be values of their own, later on
        self.ref.ids = {}
        ids = {id(k): nm for k, nm in zip(keys, names)}
        self.key_ids(ids)
        try:
            b = bytes(self.enc_keys.encode(shape(keys)))
        finally:
            self.key_ids({})
        w = bytes(self.enc_keys.encode(wanted))
        check(b == w, "substitute-differs", lambda: f"keys {kinds}: {b.hex()[:400]} wanted {w.hex()[:400]}")
        self.env.fault("key_refusal_caught")

    def key_ids(self, ids):
        self._key_ids = ids
        if not hasattr(self, "enc_keys"):
            def keystep(value, /, ctx, next):
                if ctx.stream.allowed_tags is not None and id(value) in self._key_ids:
                    try:
                        return next(value)
                    except (EncodeV8SerializeError, ValueError):
                        return next(self._key_ids[id(value)])
                return next(value)
            self.enc_keys = Encoder(encode_steps=(keystep, *self.esteps), features=self.feats)

    def do_tolerant(self, it, n, x, y):
        if it["out"] != "ok":
            return
        v = it["v"]
        items = []
        kept = []
        for j in range(2 + y % 4):
            if (n >> j) & 1:
                k = KEYS[(x + j) % len(KEYS)]
                key = key_value(k, v) if k != "ref" else [9]
                items.append((key, v))
                if j % 2:
                    items.append((f"p{j}", key if not isinstance(key, Odd) else 3))
                    kept.append(items[-1])
            else:
                items.append((f"k{j}", v))
                kept.append(items[-1])

        def shape(xs):
            return [1, v, Tolerant(xs), v, [items[-1][1] if not isinstance(items[-1][1], Odd) else 0]]
        self.ref.ids = {}
        self.same("tolerant", shape(items), shape(kept), "key_refusal_caught")

    def do_tolerr(self, it, n, x, y):
        if it["out"] != "ok":
            return
        v = it["v"]
        k = REFUSED[n % len(REFUSED)]
        wr = (k == "f16" and "Float16Array" in str(self.feats)) or (
            k == "sets" and "RegExpUnicodeSets" in str(self.feats))
        a, b = TolErr(refusable(k) if not wr else Odd()), TolErr(None)
        if y % 4 == 0:
            a.cause = a
        self.ref.ids = {}

        def shape(e):
            return [[v, e, v, e, [e]], JSMap([(e, v), (v, e)])][x % 2]
        self.same(f"tolerr {k}", shape(a), shape(b), "refusal_caught")
        self.env.fault("refusal_caught")

    def do_circ(self, it, n, x, y):
        """Errors that are their own cause, with a step standing in for the cycle."""
        if it["out"] != "ok" or "CircularErrorCause" in str(self.feats):
            return
        v = it["v"]

        def circ(value, /, ctx, next):
            try:
                return next(value)
            except ReferenceError:
                if type(value) is JSError and value.message == "loop":
                    return ctx.stream.write_string_utf8("circular")
                raise
        enc = Encoder(encode_steps=(circ, *self.esteps), features=self.feats)
        e = JSError("loop")
        e.cause = [v, e, JSObject(x=e)]
        w = JSError("loop", cause=[v, "circular", JSObject(x="circular")])
        b = bytes(enc.encode([e, v, e]))
        wb = bytes(enc.encode([w, v, w]))
        check(b == wb, "substitute-differs", lambda: f"circular: {b.hex()[:300]} wanted {wb.hex()[:300]}")
        self.env.fault("refusal_caught")

    # -- nothing stays locked ----------------------------------------------------

    def unlocked(self, b, what):
        for again in (True, False):
            try:
                b.append(0)
                b.pop()
                return
            except BufferError:
                if not again:
                    raise Violation("locked", f"{what} is still borrowed after the call ended") from None
                gc.collect()

    def all_unlocked(self):
        for it in self.items:
            for g in (it["g"], it["g2"]):
                exported = {nd[2] for nd in g.nodes if nd[0] == "view" and nd[2] is not None}
                for i, nd in enumerate(g.nodes):
                    if nd[0] == "barr" and i not in exported:
                        self.unlocked(g.vals[i], "a bytearray of the value")
                    elif nd[0] == "ab" and g.vals[i].resizable and i not in exported:
                        b = g.vals[i]
                        n = len(b.data)
                        for again in (True, False):
                            try:
                                b.resize(0)
                                b.resize(n)
                                raw = bytes.fromhex(nd[1])
                                with memoryview(b.data) as m:
                                    m[:] = raw
                                break
                            except BufferError:
                                if not again:
                                    raise Violation("locked", "a buffer of the value is still borrowed") from None
                                gc.collect()


def strip(e):
    """Let go of what the exception holds on to."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        nxt = e.__cause__ or e.__context__
        e.__cause__ = e.__context__ = None
        e = nxt


def run(s, env):
    if not s["graphs"]:
        return
    w = World(s, env)
    for op in s["ops"]:
        env.log("op", *op)
        env.calls += 1
        w.do(op)
        for j, it in enumerate(w.items):
            w.clean(it, f"after {op[0]}")
    w.c.reset()
    w.d.reset()
    if env.faults:
        env.nontrivial = True
    w.all_unlocked()
    for it in w.items:
        w.clean_encode(it, "end")
    env.state(sorted(map(repr, w.states)))
