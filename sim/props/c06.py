"""C06: a sender never emits what its oldest configured reader cannot read."""
from __future__ import annotations

import random

from packaging.version import Version

import graphs as G
import mesh as M
import refv8 as V
from core import Violation, check, short

from v8serialize import Decoder, Encoder, SerializationFeature as F, dumps, default_encode_steps
from v8serialize.constants import SymbolicVersion
from v8serialize.decode import TagReader
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from v8serialize.jstypes import JSRegExp
from props.c01 import EXPECT
from props.c03 import Strings

PROP = "C06"
RUNS = {"quick": 14000, "thorough": 250000}
CHUNK = 40
RULE = (
    "scenario = a cluster of V8 readers of several releases (including ones with any single "
    "feature combination), a sender reconfigured from message to message with explicit features "
    "and/or a minimum version, 1-4 value graphs rich in feature-dependent values, default or "
    "custom steps, and a lossy mesh during which readers are upgraded; every eligible reader "
    "reads every message; non-trivial when a feature-dependent value was sent or refused; "
    "distinct by trace digest"
)
STATE_MEASURE = "configured features x how configured x kinds in the graph x outcome"
COMPONENTS = {
    "v8serialize encode/constants/jstypes/extensions": "real",
    "V8 readers of every release": "model (sim/refv8.py), checked against node v22 by tools/golden.py",
    "cluster, links, upgrades": "stub (sim/mesh.py)",
}
ASSUMPTIONS = [
    "release from which each feature is readable: 10.7.123, 11.0.193, 12.1.109 and unreleased (half floats), as documented",
]
FULL = 15
# what a sender must assume of readers from this version on (the documented table)
VERSIONS = [
    ("10.0.29", 0), ("10.5.1", 0), ("10.7.122", 0), ("10.7.123", 1), ("10.8.168.25-node.14", 1),
    ("11.0.192", 1), ("11.0.193", 3), ("11.3.244.8-node.17", 3), ("12.1.108", 3), ("12.1.109", 7),
    ("12.4.254.21-node.33", 7), ("13.0.1", 7), ("unreleased", 15),
]
SUFFIXES = ["", "", "-node.17", "-rusty", "-electron.0", "+local"]
FIRSTS = [(10, 0, 29), (10, 7, 123), (11, 0, 193), (12, 1, 109)]
NEEDS = {0: "10.0.29", 1: "10.7.123", 2: "11.0.193", 4: "12.1.109", 8: "unreleased"}
LEAVES = ["int", "str", "none", "re", "re", "pyre", "ab", "ab", "ab", "barr", "bytes", "sab"]
COMPS = ["list", "obj", "map", "err", "err", "view", "view", "view", "arr", "mset", "dict", "pyexc"]


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 4])
    msgs = []
    for _ in range(n):
        rich = r.random() < 0.7
        msgs.append({
            "g": G.gen_graph(r, leaf_kinds=LEAVES, comps=COMPS, size=r.choice([1, 2, 3, 5, 8, 14]))
            if rich else G.flavoured(r, 0.3, G.gen_graph(r)),
            "how": r.choice(["features", "version", "both", "default"]),
            "f": r.randrange(16), "ver": gen_version(r),
            "step": r.choice(["", "", "", "node", "direct", "strings"]),
            "api": r.randrange(2), "seed": r.getrandbits(32),
        })
    return {"msgs": msgs, "mesh": M.gen_mesh(r, n), "seed": r.getrandbits(32)}


def gen_version(r):
    if r.random() < 0.5:
        return r.randrange(len(VERSIONS))
    # any release, most of them close to one that brought a feature
    v = list(r.choice(FIRSTS)) if r.random() < 0.7 else [r.randrange(8, 16), r.randrange(12), r.randrange(400)]
    k = r.randrange(len(v))
    v[k] = max(0, v[k] + r.choice([0, 0, -1, 1, 9, -9, 90]))
    v = v[:r.choice([3, 3, 3, 2])] + [[], [], [0], [r.randrange(300)]][r.randrange(4)]
    return [v, r.randrange(len(SUFFIXES)), r.randrange(3)]


def version_bits(ver) -> int:
    """The feature bits of a release, or -1 when it is too old to read format 15."""
    if isinstance(ver, int):
        return VERSIONS[ver][1]
    n = tuple(ver[0])
    n += (0,) * (4 - len(n))
    if n < FIRSTS[0]:
        return -1
    return sum(b for b, first in zip((1, 2, 4), FIRSTS[1:]) if n >= first)


def version_arg(ver):
    if isinstance(ver, int):
        v = VERSIONS[ver][0]
        return SymbolicVersion.Unreleased if v == "unreleased" else v
    text = ".".join(map(str, ver[0])) + SUFFIXES[ver[1] % len(SUFFIXES)]
    return Version(text.replace("-", "+")) if ver[2] == 0 else text


def configured(m) -> int:
    """The feature bits the sender may assume, by the documented table."""
    f = 0
    if m["how"] in ("features", "both"):
        f |= m["f"]
    if m["how"] in ("version", "both"):
        f |= version_bits(m["ver"])
    return f


def kwargs(m):
    kw = {}
    if m["how"] in ("features", "both"):
        kw["features"] = G.features_of(m["f"])
    if m["how"] in ("version", "both"):
        kw["v8_version"] = version_arg(m["ver"])
    return kw


def direct_step(value, /, ctx, next):
    """A user step writing feature-dependent values through the stream API."""
    if isinstance(value, JSRegExp):
        return ctx.stream.write_js_regexp(value)
    if hasattr(value, "view_tag") and hasattr(value, "backing_buffer"):
        ctx.encode_object(value.backing_buffer)
        return ctx.stream.write_js_array_buffer_view(value)
    return next(value)


def steps_for(m):
    steps = [G.cust_step, *default_encode_steps]
    if m["step"] == "node":
        steps.insert(2, serialize_js_array_buffer_views_as_nodejs_host_object)
    elif m["step"] == "direct":
        steps.insert(2, direct_step)
    elif m["step"] == "strings":
        steps.insert(1, Strings(1, random.Random(m["seed"])))
    return steps


def releases(bits):
    """Readers that must cope: exactly these features, and every newer release."""
    out = [V.Release(f"only-{bits}", 15, rab=bool(bits & 2), circ=bool(bits & 4),
                     v_flag=bool(bits & 1), f16=bool(bits & 8))]
    for name, x in V.RELEASES.items():
        have = x.v_flag * 1 | x.rab * 2 | x.circ * 4 | x.f16 * 8
        if x.version == 15 and bits & ~have == 0:
            out.append(x)
    return out


def prepare(m):
    spec = {"nodes": [list(x) for x in m["g"]["nodes"]], "root": m["g"]["root"]}
    for nd in spec["nodes"]:
        if nd and nd[0] in ("arr", "sparr"):
            nd[-1] = [e for e in nd[-1] if e[0] != "length"]
        if nd and nd[0] == "err" and G.ERR_NAMES[nd[2] % len(G.ERR_NAMES)] in ("URIError", "UriError"):
            nd[2] = 0
    return G.Graph(spec)


ERRORS = dict(EXPECT)


def encode(m, value, cache):
    key = (m["how"], m["f"], str(m["ver"]), m["step"])
    if m["api"] or m["step"] == "strings":
        return dumps(value, encode_steps=steps_for(m), **kwargs(m))
    e = cache.get(key)
    if e is None:
        e = cache[key] = Encoder(encode_steps=steps_for(m), **kwargs(m))
    return bytes(e.encode(value))


def run(s, env):
    msgs, cache = [], {}
    for m in s["msgs"]:
        if m["how"] in ("version", "both") and version_bits(m["ver"]) < 0:
            for f in (Encoder, lambda **kw: dumps(None, **kw)):
                try:
                    f(**kwargs(m))
                except LookupError:
                    env.log("too old")
                    env.probe("too_old")
                else:
                    raise Violation("too-old-accepted", f"{kwargs(m)}")
            continue
        bits = configured(m)
        feats = G.features_of(bits)
        enc = Encoder(**kwargs(m))
        check(int(enc.features.value) == bits, "wrong-features",
              lambda: f"{kwargs(m)} enables {enc.features!r}, expected {feats!r}")
        want = max((b for b in (1, 2, 4, 8) if bits & b), default=0)
        got = str(getattr(enc.first_v8_version, "name", enc.first_v8_version)).lower()
        check(got == NEEDS[want], "wrong-first-version", lambda: f"{got} for {feats!r}")
        g = prepare(m)
        value = g.build()
        node = m["step"] == "node"
        expect = g.predict(feats, node_views=node)
        env.calls += 1
        kinds = tuple(sorted({g._kind(c) for c in g.reachable()}))
        env.state(bits, m["how"], kinds, expect, m["step"])
        if expect != "ok":
            allowed = [EXPECT[expect]]
            if m["step"] == "direct" and expect == "float16":
                allowed = [EXPECT["unicode-sets"]]
            try:
                data = encode(m, value, cache)
            except tuple(allowed) as e:
                env.log("refused", expect, type(e).__name__)
                env.probe("refused_" + expect)
                env.nontrivial = True
                continue
            except tuple(EXPECT.values()) as e:
                raise Violation("wrong-refusal", f"{expect}: {type(e).__name__}: {short(e)}") from None
            raise Violation("not-refused", f"{expect} with {feats!r} emitted {data.hex()[:200]}")
        msgs.append((m, g, feats, bits))
    if not msgs:
        return
    r = random.Random(s["seed"])
    node_dec = Decoder([TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])

    def enc_i(i):
        m, g, feats, bits = msgs[i]
        env.calls += 1
        v = g.build()
        try:
            return encode(m, v, cache)
        except tuple(EXPECT.values()) as e:
            raise Violation("refused", f"{feats!r}: {type(e).__name__}: {short(e)}") from None

    def deliver(i, data, buf):
        m, g, feats, bits = msgs[i]
        node = m["step"] == "node"
        interesting = {"ab", "view", "re", "pyre", "err", "barr"}
        env.nontrivial |= any(g._kind(c) in interesting for c in g.reachable())
        readers = releases(bits)
        # the cluster is being upgraded while messages are under way
        start = r.randrange(len(readers))
        for rel in readers[start:] + readers[:start]:
            if rel is not readers[start]:
                env.probe("read_by_upgraded_peer")

            def fail(kind, detail):
                raise Violation(kind, f"sender {kwargs(m)}: {detail}")

            rd = V.Reader(data, rel)
            try:
                v = rd.read()
            except V.V8Error as e:
                raise Violation("reader-refuses", f"sender {kwargs(m)}, V8 {rel.name}: {e}; {data.hex()[:300]}") from None
            check(rd.p == len(data), "trailing-data", lambda: f"{rd.p} of {len(data)}")
            env.probe("nodes_compared", V.JSMatch(g, feats, fail, node_views=node).run(g.root, v))
            env.probe("reader_" + rel.name)
        env.log("delivered", i, bits, len(readers))
        env.calls += 1
        g.match(M.decode_buf(node_dec, buf), features=feats, node_views=node)

    M.Mesh(s["mesh"], len(msgs), enc_i, deliver, env).run()
