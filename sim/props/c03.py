"""C03: V8 peers and this library understand each other's messages."""
from __future__ import annotations

import random

import graphs as G
import mesh as M
import refv8 as V
from core import Violation, check, short

from v8serialize import Decoder, Encoder, default_encode_steps, loads
from v8serialize.decode import TagReader
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from props.c01 import EXPECT

PROP = "C03"
RUNS = {"quick": 14000, "thorough": 250000}
CHUNK = 40
RULE = (
    "scenario = a cluster of Python hosts and V8 hosts of releases from wire format 13 to "
    "today, 1-4 messages (random value graphs) each travelling V8->Python, Python->V8 or "
    "V8->Python->V8 over the lossy mesh, with seeded representation choices on the V8 side "
    "(string encodings, padding, int/double/bigint, sparse/dense, error layouts, Node.js views) "
    "and features selected for the oldest V8 reader; non-trivial when a message crossed "
    "between the two implementations; distinct by trace digest"
)
STATE_MEASURE = "multiset of node kinds x route x V8 releases"
COMPONENTS = {
    "v8serialize encode/decode/jstypes/extensions": "real",
    "V8 ValueSerializer/ValueDeserializer": "model (sim/refv8.py), checked against node v22 "
    "by tools/golden.py",
    "hosts, links, disks, receive buffers, clock": "stub (sim/mesh.py)",
}
ASSUMPTIONS = [
    "strings contain no lone surrogates",
    "arrays have no own property called 'length' (impossible in JavaScript)",
    "JavaScript wrapper objects arrive as primitives, as documented",
]
LEAVES = ["int", "int", "flt", "flt", "str", "str", "str", "bool", "none", "undef", "hole", "date",
          "re", "prim", "shref", "sab", "abt", "bytes", "ab", "ab"]
PYLEAVES = LEAVES + ["pyre", "barr", "mview"]
COMPS = ["list", "obj", "arr", "sparr", "map", "mset", "err", "view"]
PYCOMPS = COMPS + ["tuple", "deque", "dict", "set", "fset"]
READERS = [n for n, x in V.RELEASES.items() if x.version == 15]
URI = ["URIError", "UriError"]


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 4])
    if i % 400 == 7:
        # the finding about URIError has runs of its own, see known_findings.jsonl
        return {"uri": r.choice(["in", "out"]), "seed": r.getrandbits(32),
                "rel": r.choice(READERS)}
    msgs = []
    for _ in range(n):
        route = r.choice(["in", "in", "out", "out", "relay"])
        py = route == "out"
        msgs.append({
            "g": G.flavoured(r, 0.2 if py else 0, G.gen_graph(
                r, leaf_kinds=PYLEAVES if py else LEAVES, comps=PYCOMPS if py else COMPS, big=0.005)),
            "route": route, "src": r.choice(list(V.RELEASES)), "dst": r.choice(READERS),
            "node": r.choice([0, 0, 1]), "strings": r.choice([0, 0, 0, 1, 2]), "seed": r.getrandbits(32),
            "sel": r.choice([0, 0, 1]),
        })
    return {"msgs": msgs, "mesh": M.gen_mesh(r, n)}


def prepare(m):
    """The graph, limited to what the sending release can hold."""
    spec = {"nodes": [list(x) for x in m["g"]["nodes"]], "root": m["g"]["root"]}
    rel = V.RELEASES[m["src"]]
    v8_sends = m["route"] != "out"
    for i, nd in enumerate(spec["nodes"]):
        k = nd[0] if nd else None
        if k in ("arr", "sparr"):
            nd[-1] = [e for e in nd[-1] if e[0] != "length"]
        if k == "err" and G.ERR_NAMES[nd[2] % len(G.ERR_NAMES)] in URI:
            nd[2] = 0
        if k == "prim" and m["route"] == "relay":
            spec["nodes"][i] = ["undef"]
        if v8_sends:
            if k == "view" and nd[1] == "h" and not rel.f16:
                nd[1] = "w"
            if k == "re" and not rel.v_flag:
                nd[2] &= 0xFF
            if k == "shref" and rel.version < 15:
                spec["nodes"][i] = ["undef"]
    return G.Graph(spec)


def features_for(rel, sel):
    F = G.SerializationFeature
    f = F(0)
    for on, x in ((rel.rab, F.ResizableArrayBuffers), (rel.circ, F.CircularErrorCause),
                  (rel.f16, F.Float16Array), (rel.v_flag, F.RegExpUnicodeSets)):
        if on:
            f |= x
    return f


class Strings:
    """A user step choosing V8's other string representations."""

    def __init__(self, mode, r):
        self.mode, self.r = mode, r

    def __call__(self, value, /, ctx, next):
        if type(value) is str:
            k = self.r.randrange(3) if self.mode == 1 else 2
            if k == 0:
                try:
                    value.encode("latin1")
                except UnicodeEncodeError:
                    k = 2
                else:
                    return ctx.stream.write_string_onebyte(value)
            if k == 2:
                return ctx.stream.write_string_twobyte(value)
        return next(value)


def py_encode(m, value, dst):
    steps = list(default_encode_steps)
    if m["node"]:
        steps.insert(1, serialize_js_array_buffer_views_as_nodejs_host_object)
    if m["strings"]:
        steps.insert(0, Strings(m["strings"], random.Random(m["seed"] + 1)))
    kw = {"features": features_for(dst, 0)}
    if m["sel"] and not dst.f16 and dst.rab:
        kw = {"v8_version": "11.0.193" if not dst.circ else "12.1.109"}
        if dst.v_flag:
            kw["features"] = G.SerializationFeature.RegExpUnicodeSets
    return bytes(Encoder(encode_steps=steps, **kw).encode(value))


def v8_receive(m, g, data, dst, env, feats, node_views, path):
    def fail(kind, detail):
        raise Violation(kind, f"{path}: {detail}")

    rd = V.Reader(data, dst)
    try:
        v = rd.read()
    except V.V8Error as e:
        raise Violation("v8-refuses", f"{path} V8 {dst.name}: {e}; data {short(data, 200)}") from None
    check(rd.p == len(data), "v8-trailing-data", lambda: f"{path}: {rd.p} of {len(data)} read")
    for p in rd.twobyte_positions:
        check(p % 2 == 0, "two-byte-misaligned", f"{path}: two-byte string at odd offset {p}")
        env.probe("two_byte_strings_written")
    env.probe("nodes_compared", V.JSMatch(g, feats, fail, node_views=node_views).run(g.root, v))


def run_uri(s, env):
    """V8's URIError, in both directions."""
    rel = V.RELEASES[s["rel"]]
    env.nontrivial = True
    env.log("uri", s["uri"], rel.name)
    g = G.Graph({"nodes": [["err", 0, 7, "m", None, None]], "root": 0})
    value = g.build()
    if s["uri"] == "in":
        got = loads(V.Writer(g, rel, random.Random(s["seed"])).write())
        name = str(getattr(got.name, "value", got.name))
        g.match(got, features=features_for(rel, 0))
    else:
        value.name = "URIError"
        name = V.Reader(py_encode({"node": 0, "strings": 0, "sel": 0}, value, rel), rel).read().name
    check(name == "URIError", "uri-error-name", f"{s['uri']}: URIError arrives as {name}")


def run(s, env):
    if "uri" in s:
        return run_uri(s, env)
    msgs = []
    for m in s["msgs"]:
        g = prepare(m)
        value = g.build()
        src, dst = V.RELEASES[m["src"]], V.RELEASES[m["dst"]]
        if m["route"] == "out":
            want = g.predict(features_for(dst, 0), node_views=bool(m["node"]))
            if want != "ok":
                try:
                    py_encode(m, value, dst)
                except tuple(EXPECT.values()):
                    env.probe("refused_as_documented")
                    continue
                raise Violation("not-refused", f"expected refusal: {want}")
        msgs.append((m, g, src, dst))
    env.log("messages", len(msgs))
    if not msgs:
        return
    decoder = Decoder(decode_steps=[TagReader(
        host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])

    def encode(i):
        m, g, src, dst = msgs[i]
        env.calls += 1
        value = g.build()
        if m["route"] == "out":
            return py_encode(m, value, dst)
        return V.Writer(g, src, random.Random(m["seed"]), node_views=bool(m["node"])).write()

    def deliver(i, data, buf):
        m, g, src, dst = msgs[i]
        env.calls += 1
        env.nontrivial = True
        route = m["route"]
        env.state(tuple(sorted(g._kind(c) for c in g.reachable())), route, src.name, dst.name)
        nv = bool(m["node"])
        if route == "out":
            v8_receive(m, g, data, dst, env, features_for(dst, 0), nv, "Python->V8")
            return
        decoded = M.decode_buf(decoder, buf)
        env.probe("nodes_compared", g.match(
            decoded, features=features_for(src, 0), node_views=nv))
        if route == "relay":
            # the Python host forwards what it decoded to a V8 peer
            both = features_for(src, 0) & features_for(dst, 0)
            try:
                data2 = py_encode(m, decoded, dst)
            except tuple(EXPECT.values()) as e:
                check(g.predict(features_for(dst, 0), node_views=nv) != "ok", "relay-refused",
                      lambda: f"{type(e).__name__}: {short(e)}")
                env.probe("relay_refused_as_documented")
                return
            env.probe("relayed")
            v8_receive(m, g, data2, dst, env, both, nv, f"V8 {src.name}->Python->V8")

    M.Mesh(s["mesh"], len(msgs), encode, deliver, env).run()
