"""C02: shared references and cycles arrive with exactly the sender's identity shape."""
from __future__ import annotations

import gc
import random

import graphs as G
from core import Violation, check, short

from v8serialize import Decoder, Encoder, default_encode_steps
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from v8serialize.decode import TagReader
from props.c01 import EXPECT

PROP = "C02"
RUNS = {"quick": 24000, "thorough": 400000}
CHUNK = 40
RULE = (
    "scenario = one sharing- and cycle-heavy graph, a feature set, 1-3 relay hops (decode, "
    "re-encode what was decoded), optional Node.js view host objects, and a seeded allocator "
    "that frees and reuses memory and collects garbage between conversion steps on both ends; "
    "non-trivial when some object is reached by two paths; distinct by trace digest"
)
STATE_MEASURE = "multiset of (kind, in-degree>1) over reachable nodes x features x hops"
COMPONENTS = {
    "v8serialize encode/decode/jstypes/extensions": "real",
    "memory reuse and garbage collection timing": "driven by seeded steps",
    "transport": "stub (bytes handed over)",
}
ASSUMPTIONS = [
    "equal immutable values (tuples, frozensets, bytes, patterns, views of bytes) may be merged",
    "identity of primitive wrapper objects is not kept by design (decoded as primitives)",
]

COMPS = ["list", "deque", "dict", "obj", "arr", "sparr", "map", "mset", "err", "view", "tuple",
         "cust", "set", "fset"]
LEAVES = ["date", "re", "pyre", "prim", "shref", "sab", "abt", "bytes", "barr", "mview", "ab",
          "ab", "barr", "str", "int", "flt", "bool", "none", "undef", "hole"]


def gen(r, i, tier):
    k = r.random()
    churn = r.choice([0, 10, 50])
    if k < 0.006:
        g = bulk(r)
        churn = 0
    elif k < 0.35:
        g = many(r)
    else:
        g = G.flavoured(r, 0.2, G.gen_graph(r, comps=COMPS, leaf_kinds=LEAVES, big=0.01))
    return {"g": g, "f": G.gen_features(r), "hops": r.choice([1, 1, 2, 3]),
            "node": int(r.random() < 0.25), "churn": churn,
            "seed": r.getrandbits(32)}


def bulk(r):
    """Thousands of values with the same few things before, among and after them."""
    n = r.choice([130, 500, 1100, 2100, 4200, 4200, 5000, 8300])
    kind = r.choice(["tuple", "str", "bytes", "flt", "date", "re", "obj", "ab"])
    nodes = [["list", []]]

    def add(nd):
        nodes.append(nd)
        return len(nodes) - 1

    few = [add(G.gen_leaf(r, LEAVES)) for _ in range(r.randrange(1, 4))]
    for k in r.sample(["tuple", "fset", "obj", "list", "map"], 2):
        few.append(add([k, [[few[0], few[0]]] if k == "map" else [["p", few[0]]] if k == "obj"
                        else []]))
    few.append(add(["tuple", [add(["int", 7]), add(["str", "é"])]]))
    few.append(add(["tuple", [add(["int", 7]), add(["str", "é"])]]))  # an equal twin
    few.append(add(["bytes", "6162"]))
    few.append(add(["bytes", "6162"]))
    if kind == "tuple":
        kids = [add(["int", j]) for j in range(40)]
        out = [add(["tuple", [kids[j % 40], kids[j // 40 % 40], kids[j // 1600 % 40]]]) for j in range(n)]
    else:
        out = [add({"str": ["str", f"s{j}"], "bytes": ["bytes", j.to_bytes(3, "big").hex()], "flt": ["flt", (j + 0.5).hex()],
                    "date": ["date", 1000 * j, 0], "re": ["re", f"a{j}", 0], "obj": ["obj", []],
                    "ab": ["ab", "00", None]}[kind]) for j in range(n)]
    for _ in range(r.randrange(3)):
        out.insert(r.randrange(n), r.choice(few))
    out += [r.choice(out) for _ in range(5)]
    nodes[0][1] = r.sample(few, len(few)) + out + r.sample(few, len(few)) + [0]
    m = len(nodes)  # immutables need children with higher indexes: mirror the numbering
    flipped = [None] * m
    for i, nd in enumerate(nodes):
        flipped[(m - i) % m] = remap(nd, lambda c: (m - c) % m)
    return {"nodes": flipped, "root": 0}


def many(r):
    """Short segments of every kind, each followed by references to all before it."""
    nodes = [["list", []]]
    tracked = []
    top = []
    n = r.randrange(2, 14)
    for _ in range(n):
        if r.random() < 0.55:
            nd = G.gen_leaf(r, LEAVES)
        else:
            k = r.choice(COMPS)
            c = lambda: r.choice(tracked) if tracked and r.random() < 0.8 else 0  # noqa: E731
            w = r.randrange(0, 4)
            if k in ("list", "deque", "tuple", "mset", "set", "fset"):
                nd = [k, [c() for _ in range(w)]]
            elif k in ("dict", "map"):
                nd = [k, [[c(), c()] for _ in range(w)]]
            elif k == "obj":
                nd = [k, [[G.gen_key(r), c()] for _ in range(w)]]
            elif k == "arr":
                nd = [k, [c() for _ in range(w)], [[G.gen_key(r), c()] for _ in range(w // 2)]]
            elif k == "sparr":
                nd = [k, r.choice([5, 100, 2**20]), [[r.randrange(20), c()] for _ in range(w)], []]
            elif k == "err":
                nd = [k, r.randrange(2), r.randrange(7), r.choice([None, "m"]), r.choice([None, "s"]),
                      r.choice([None, c()])]
            elif k == "view":
                bufs = [j for j in tracked if nodes[j][0] in G.VIEWABLE]
                if not bufs:
                    nodes.append(G.gen_leaf(r, ["bytes", "barr", "ab", "ab", "sab", "abt"]))
                    bufs = [len(nodes) - 1]
                nd = [k, r.choice(list(G.VIEW_CLASSES)), r.choice(bufs), r.randrange(4),
                      r.choice([None, 0, 1, 2])]
            else:
                nd = [k, r.randrange(40), [c() for _ in range(w)]]
        nodes.append(nd)
        j = len(nodes) - 1
        tracked.append(j)
        top.append(j)
        if r.random() < 0.5:
            top.append(r.choice(tracked))
        if nd[0] in G.VIEWABLE and r.random() < 0.3:
            top.append(j)
    top += [r.choice(tracked) for _ in range(r.randrange(1, 5))]
    # immutables need children with higher indexes: mirror the numbering
    m = len(nodes)
    flip = lambda c: (m - c) % m  # noqa: E731
    out = [None] * m
    for i, nd in enumerate(nodes):
        out[flip(i)] = remap(nd, flip)
    kind = r.choice(["list", "map", "obj", "mset", "arr"])
    t = [flip(c) for c in top]
    if kind in ("list", "mset"):
        root = [kind, t]
    elif kind == "map":
        root = [kind, [[t[j], t[-1 - j]] for j in range(len(t))]]
    elif kind == "obj":
        root = [kind, [[f"p{j}", c] for j, c in enumerate(t)]]
    else:
        root = [kind, t, [["x", t[0]]]]
    out[0] = root
    return {"nodes": out, "root": 0}


def remap(nd, f):
    k = nd[0]
    if k in ("list", "deque", "tuple", "mset", "set", "fset"):
        return [k, [f(c) for c in nd[1]]]
    if k in ("dict", "map"):
        return [k, [[f(a), f(b)] for a, b in nd[1]]]
    if k == "obj":
        return [k, [[a, f(b)] for a, b in nd[1]]]
    if k == "arr":
        return [k, [f(c) for c in nd[1]], [[a, f(b)] for a, b in nd[2]]]
    if k == "sparr":
        return [k, nd[1], [[a, f(b)] for a, b in nd[2]], nd[3]]
    if k == "err":
        return nd[:5] + [None if nd[5] is None else f(nd[5])]
    if k == "view":
        return [k, nd[1], f(nd[2]), nd[3], nd[4]]
    if k == "cust":
        return [k, nd[1], [f(c) for c in nd[2]]]
    return nd


class Churn:
    """Frees and reuses memory between steps, and collects, as seeded."""

    def __init__(self, r, pct, env):
        self.r, self.pct, self.env = r, pct, env
        self.held = []

    def tick(self):
        r = self.r
        if r.randrange(100) >= self.pct:
            return
        k = r.randrange(5)
        if k == 0:
            self.env.fault("gc_collect")
            gc.collect()
        elif k == 1:
            self.env.fault("heap_reuse")
            self.held.clear()
        else:
            self.env.fault("heap_alloc")
            self.held.extend(
                r.choice([list, dict, set, bytearray, object, G.JSObject, G.JSArray, G.JSMap])()
                for _ in range(4)
            )

    def encode_step(self, value, /, ctx, next):
        self.tick()
        next(value)
        self.tick()

    def decode_step(self, tag, /, ctx, next):
        self.tick()
        v = next(tag)
        self.tick()
        return v


def run(s, env):
    r = random.Random(s["seed"])
    f = G.features_of(s["f"])
    g = G.Graph(s["g"])
    churn = Churn(r, s["churn"], env)
    node = bool(s["node"])
    steps = [churn.encode_step, G.cust_step, *default_encode_steps]
    if node:
        steps.insert(-1, serialize_js_array_buffer_views_as_nodejs_host_object)
    enc = Encoder(encode_steps=steps, features=f)
    reader = TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())
    dec = Decoder(decode_steps=[churn.decode_step, reader])
    v = g.build()
    want = g.predict(f, node_views=node)
    indeg: dict = {}
    kinds = []
    for c in g.reachable():
        for x in set(g.children(c)):
            indeg[x] = indeg.get(x, 0) + 1
    for c in g.reachable():
        kinds.append((g.nodes[c][0], indeg.get(c, 0) > 1))
    env.state(sorted(kinds), s["f"], s["hops"], node)
    if any(b for _, b in kinds):
        env.nontrivial = True
    for hop in range(max(1, s["hops"])):
        env.calls += 2
        try:
            data = bytes(enc.encode(v))
        except tuple(EXPECT.values()) as e:
            if want == "ok" or not isinstance(e, EXPECT[want]):
                raise Violation("refused", f"hop {hop}: expected {want}, got {short(e)}")
            env.probe("refused_as_documented")
            return
        check(want == "ok", "not-refused", f"expected refusal: {want}")
        v = dec.decodes(data)
        n = g.match(v, features=f, node_views=node)
        env.log("hop", hop, len(data), n)
        env.probe("hops")
