"""C08: one Encoder/Decoder serves any number of threads at once."""
from __future__ import annotations

import datetime as dt
import random

import graphs as G
import sched
import wire as W
from core import configure, Violation, check, short

from v8serialize import (
    Decoder,
    DecodeV8SerializeError,
    Encoder,
    V8SerializeError,
    default_decode_steps,
    default_encode_steps,
    dumps,
    loads,
)
from v8serialize.decode import TagReader, TagReaderRegistry
from v8serialize.constants import SerializationTag
from v8serialize.encode import TagWriter, UnhandledValueEncodeV8SerializeError, serialize_object_references
from v8serialize.jstypes import JSArray, JSMap, JSObject, JSSet
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from props.c01 import EXPECT

PROP = "C08"
RUNS = {"quick": 25000, "thorough": 200000}
CHUNK = 60
RULE = (
    "scenario = 2-4 threads making a seeded sequence of encode/decode calls each on shared and "
    "private Encoders, Decoders, steps, readers and read-only values, some calls failing by "
    "unsupported values, damaged data, failing steps or exceptions raised at a seeded point, "
    "under a seeded thread schedule switching between lines or bytecodes; non-trivial when at "
    "least one switch happened inside a call; distinct by trace digest"
)
STATE_MEASURE = "set of (task, steps-at-switch bucket, call kind pairs) per schedule"
COMPONENTS = {
    "v8serialize encode/decode/extensions/jstypes": "real, in real threads run one at a time",
    "thread scheduler, locks": "simulated (sim/sched.py)",
    "custom steps": "harness",
}
ASSUMPTIONS = [
    "switches happen between lines or bytecodes of Python code, as with the GIL; C code is atomic",
]
DECS = ["plain", "tz", "node", "types", "registry", "step", "loads"]
ENCS = ["plain", "node", "yielding", "nested", "failing", "fresh", "dumps"]


def gen_pair(r, i):
    """Two threads make the same kind of call, one staying put at some place while the other goes by."""
    g = {"g": some(r, size=r.choice([1, 2, 3, 4, 6, 8]), maxwidth=5), "cold": int(r.random() < 0.2)}
    graphs = [g]
    if r.random() < 0.5:  # other values of the same kinds
        g2 = {"g": {"nodes": [vary(r, nd) for nd in g["g"]["nodes"]], "root": g["g"]["root"]}, "cold": g["cold"]}
        graphs.append(g2)
    k = r.choice("eeeddxt")
    op = (i // CHUNK) % 4 == 3
    plan = sched.gen_plan(r, 2, op=op, park=1)
    return {"graphs": graphs, "encs": [[r.choice(ENCS), G.gen_features(r) if r.random() < 0.3 else 15]],
            "decs": [r.choice(DECS)], "plan": plan,
            "tasks": [[[k, 0, 0, r.randrange(10**6)]], [[r.choice([k, k, k, "e", "d"]), 1, 0, r.randrange(10**6)]]
                      if r.random() < 0.8 else [[k, 1, 0, 5], [k, 0, 0, 5]]]}


def gen_tiny(r, i):
    """Two threads repeat one short call over values of the same few kinds, staying put again and again."""
    kinds = [r.choice(TINY) for _ in range(r.choice([1, 1, 2]))]
    graphs = []
    leaves = [G.gen_leaf(r, kinds) for _ in range(r.choice([1, 2, 3, 4]))]
    n = len(leaves)
    k = r.choice(["list", "list", "dict", "map", "arr", "tuple", "mset"])
    kids = list(range(n))
    root = {"list": [k, kids], "tuple": [k, kids], "mset": [k, kids],
            "dict": [k, [[n, j] for j in kids[:1]]], "map": [k, [[j, kids[-1 - j]] for j in kids]],
            "arr": [k, kids, []]}[k]
    for _ in range(2):
        nodes = [vary(r, nd) for nd in leaves] + ([["str", "k"]] if k == "dict" else []) + [root]
        graphs.append({"g": {"nodes": nodes, "root": len(nodes) - 1}, "cold": 0})
    op = (i // CHUNK) % 4 == 3
    plan = {"op": int(op), "sw": [], "first": 0, "inj": [],
            "park": [[int(r.random() * (900 if op else 150)), r.choice([1, 1, 2, 3, 4, 6]),
                      r.choice([0, 5, 30, 100]), r.randrange(2)] for _ in range(r.choice([4, 8, 16]))]}
    what = r.choice("eed")
    m = r.choice([2, 3])
    return {"graphs": graphs, "encs": [[r.choice(["plain", "plain", "node", "dumps", "fresh"]), 15]],
            "decs": [r.choice(["plain", "plain", "tz", "node", "loads"])], "plan": plan,
            "tasks": [[[what, 0, 0, 5]] * m, [[what, 1, 0, 5]] * m]}


TINY = ["int", "flt", "flt", "str", "date", "re", "prim", "bytes", "barr", "ab", "bool", "undef"]


def vary(r, nd):
    k = nd[0]
    if k == "int":
        return [k, G.gen_int(r)]
    if k == "flt":
        return [k, G.gen_float(r)]
    if k == "str":
        return [k, G.gen_str(r)]
    if k == "date":
        return [k, nd[1] + r.randrange(10**12), nd[2]]
    if k in ("bytes", "barr"):
        return [k, G.gen_bytes(r)]
    return nd


def gen(r, i, tier):
    p = r.random()
    if p < 0.6:
        return gen_tiny(r, i)
    if p < 0.85:
        return gen_pair(r, i)
    nt = r.choice([2, 2, 2, 3, 4])
    ng = r.randrange(1, 4)
    graphs = [{"g": some(r, size=r.choice([1, 2, 4, 6, 10, 15])), "cold": r.randrange(2)}
              for _ in range(ng)]
    encs = [[r.choice(ENCS), G.gen_features(r) if r.random() < 0.5 else 15] for _ in range(r.randrange(1, 3))]
    decs = [r.choice(DECS) for _ in range(r.randrange(1, 3))]
    tasks = []
    for _ in range(nt):
        ops = []
        for _ in range(r.randrange(1, 4)):
            k = r.choice("eeeedddxtp")
            ops.append([k, r.randrange(ng), r.randrange(6), r.randrange(10**6)])
        tasks.append(ops)
    plan = sched.gen_plan(r, nt, op=(i // CHUNK) % 4 == 3)
    if r.random() < 0.3:
        plan["inj"] = [[r.randrange(nt), int(2 ** r.uniform(0, 11)),
                        r.choice(["interrupt", "memory"])] for _ in range(r.randrange(1, 3))]
    return {"graphs": graphs, "encs": encs, "decs": decs, "tasks": tasks, "plan": plan}


def some(r, **kw):
    """A graph; seldom one of hundreds of objects."""
    g = G.gen_graph(r, **kw)
    if len(g["nodes"]) > 60 and r.random() < 0.85:
        g = G.gen_graph(r, **kw)
    return small(g)


def small(g):
    """No long arrays: runs stay short enough to interleave many of them."""
    for nd in g["nodes"]:
        if nd[0] == "sparr" and 300 < nd[1]:
            nd[1] = 300 if nd[1] < 2**31 else nd[1]
            if nd[1] >= 2**31:
                nd[2] = nd[2][:2]
    return g


class Unsupported:
    pass


class StepFailed(Exception):
    pass


class TypesMap(JSMap):
    pass


def registry():
    reg = TagReaderRegistry()

    def undef(tag_reader, tag, ctx):
        point()
        return TagReader.deserialize_constant(tag_reader, tag, ctx)

    reg.register(SerializationTag.kUndefined, undef)
    return reg


def make_decoder(kind, how=0):
    tr = TagReader
    if kind == "plain":
        return Decoder()
    if kind == "tz":
        return Decoder([tr(default_timezone=dt.timezone.utc)])
    if kind == "node":
        return Decoder([tr(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])
    if kind == "types":
        return Decoder([tr(jsmap_type=TypesMap, js_object_type=JSObject, jsset_type=JSSet)])
    if kind == "registry":
        return Decoder([tr(tag_readers=registry())])
    if kind == "step":

        def step(tag, /, ctx, next):
            point()
            v = next(tag)
            point()
            return v

        return configure(Decoder, [step, *default_decode_steps], how)
    return None


def point():
    t = sched.current_task()
    if t:
        t.sched.point()


def yielding_step(value, /, ctx, next):
    point()
    next(value)
    point()


def make_steps(kind, nested_enc):
    steps = [G.cust_step, *default_encode_steps]
    if kind == "node":
        steps.insert(2, serialize_js_array_buffer_views_as_nodejs_host_object)
    elif kind == "yielding":
        steps.insert(0, yielding_step)
    elif kind == "fresh":
        steps = [G.cust_step, serialize_object_references, TagWriter()]
    elif kind == "nested":

        def nested(value, /, ctx, next):
            # another call made from within this one, on a shared encoder
            if isinstance(value, str) and len(value) < 20:
                b = nested_enc.encode([value, value])
                if not bytes(b).endswith(b"$\x00\x02"):
                    raise Violation("nested-call", f"{bytes(b)!r}")
            next(value)

        steps.insert(0, nested)
    return tuple(steps)


def run(s, env):
    if not (s["graphs"] and s["tasks"] and s["encs"] and s["decs"]):
        return
    nested_enc = Encoder()
    encs = []
    for kind, f in s["encs"]:
        feats = G.features_of(f)
        steps = make_steps(kind, nested_enc)
        encs.append((kind, feats, steps, configure(Encoder, steps, f + len(s["tasks"]), features=feats)))
    decs = [(k, make_decoder(k, len(s["tasks"]) + j)) for j, k in enumerate(s["decs"])]
    graphs = []
    for m in s["graphs"]:
        g = G.Graph(m["g"])
        if m["cold"]:  # classes nothing was ever dispatched on
            g.mk = {k: type("Cold" + c.__name__, (c,), {}) for k, c in
                    (("list", list), ("dict", dict), ("obj", JSObject), ("arr", JSArray),
                     ("map", JSMap), ("mset", JSSet), ("set", set))}
        v = g.build()
        # the message for decoding: same graph, all features, made alone
        g2 = G.Graph(m["g"])
        data = None
        g2.build()
        full = G.all_features()
        if g2.predict(full) == "ok":
            data = dumps(g2.vals[g2.root], encode_steps=(G.cust_step, *default_encode_steps), features=full)
        graphs.append((g, v, g2, data, full))
    results = []

    def call(t, k, gi, j, x):
        g, v, g2, data, full = graphs[gi % len(graphs)]
        if k in "exp":
            kind, feats, steps, enc = encs[j % len(encs)]
            value = v
            if k == "x":
                value = [v, Unsupported(), v]
            if kind == "dumps" or k == "p":
                b = dumps(value, encode_steps=steps, features=feats)
            else:
                b = bytes(enc.encode(value))
            return b
        kind, dec = decs[j % len(decs)]
        if data is None:
            return None
        d = data
        if k == "t":
            d = data[: 2 + x % max(1, len(data) - 2)]
            if x % 3 == 0:
                d = bytearray(data)
                d[2 + x % max(1, len(d) - 2)] ^= 1 << (x % 8)
        if dec is None:
            return loads(d)
        return dec.decodes(d)

    def body(ti, ops):
        def go(t):
            for n, (k, gi, j, x) in enumerate(ops):
                env.log("begin", ti, n, k)
                try:
                    r = ("ok", call(t, k, gi, j, x))
                except Violation:
                    raise
                except sched.Kill:
                    raise
                except BaseException as e:  # noqa: BLE001
                    r = ("error", e)
                env.log("end", ti, n, r[0], type(r[1]).__name__)
                results.append((ti, n, (k, gi, j, x), r, list(t.sched.fired)))
                env.calls += 1
        return go

    sc = sched.Sched(s["plan"], env)
    for ti, ops in enumerate(s["tasks"]):
        sc.spawn(f"t{ti}", body(ti, ops))
    sc.run()
    for t in sc.tasks:
        if t.error is not None:
            raise t.error
    if sc.switches:
        env.nontrivial = True
    env.state(sorted({(o[0], s["encs"][o[2] % len(s["encs"])][0] if o[0] in "exp"
                       else s["decs"][o[2] % len(s["decs"])]) for ops in s["tasks"] for o in ops}),
              min(sc.switches, 20), [int(x[0]).bit_length() for x in s["plan"]["sw"][:3]])
    fired = {}
    for ti, step, kind in sc.fired:
        fired.setdefault(ti, []).append(kind)

    # every result must be what the same call gives on its own
    for ti, n, (k, gi, j, x), (status, r), _ in results:
        g, v, g2, data, full = graphs[gi % len(graphs)]
        where = f"task {ti} call {n} ({k})"
        if status == "error" and fired.get(ti) and isinstance(r, (sched.Interrupt, MemoryError)):
            kind = "interrupt" if isinstance(r, sched.Interrupt) else "memory"
            if kind in fired[ti]:
                fired[ti].remove(kind)
                env.probe("call_interrupted")
                continue
        if k in "exp":
            kind, feats, steps, enc = encs[j % len(encs)]
            node = kind == "node"
            want = g.predict(feats, node_views=node)
            if want == "ok" and k == "x":
                ok = status == "error" and isinstance(r, UnhandledValueEncodeV8SerializeError)
                check(ok and type(r.value) is Unsupported, "wrong-outcome",
                      lambda: f"{where}: expected an unhandled value error, got {status} {short(r)}")
                continue
            if want != "ok":
                check(status == "error" and isinstance(r, EXPECT[want]), "wrong-outcome",
                      lambda: f"{where}: expected {want}, got {status} {short(r)}")
                continue
            check(status == "ok", "failed", lambda: f"{where}: {type(r).__name__}: {short(r)}")
            alone = dumps(v, encode_steps=steps, features=feats)
            check(r == alone, "bytes-differ", lambda: f"{where}: {r.hex()[:200]} alone {alone.hex()[:200]}")
            d = make_decoder("node").decodes(r)
            g.match(d, features=feats, node_views=node)
            env.probe("encodes_checked")
            continue
        kind, dec = decs[j % len(decs)]
        if data is None:
            continue
        if k == "t":
            if status == "error":
                check(isinstance(r, DecodeV8SerializeError), "wrong-error", lambda: f"{where}: {short(r)}")
                try:
                    call(None, k, gi, j, x)
                except DecodeV8SerializeError as e2:
                    check(type(e2) is type(r) and e2.args[:1] == r.args[:1], "error-differs",
                          lambda: f"{where}: {short(r)} alone {short(e2)}")
                else:
                    raise Violation("failed", f"{where}: {short(r)} but decodes alone")
            else:
                try:
                    call(None, k, gi, j, x)
                except DecodeV8SerializeError as e2:
                    raise Violation("not-failed", f"{where}: alone {short(e2)}") from None
            continue
        check(status == "ok", "failed", lambda: f"{where}: {type(r).__name__}: {short(r)}")
        g2.match(r, features=full, types={"map": TypesMap} if kind == "types" else {})
        env.probe("decodes_checked")
