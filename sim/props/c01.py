"""C01: a message that arrives intact decodes to the value that was sent."""
from __future__ import annotations

import graphs as G
import mesh as M
from core import Violation, check, short

from v8serialize.decode import TagReader
from v8serialize.jstypes import JSErrorData
from v8serialize import Decoder, Encoder, default_encode_steps, dumps, loads
from v8serialize.encode import (
    FeatureNotEnabledEncodeV8SerializeError,
    UnhandledValueEncodeV8SerializeError,
)
from v8serialize._references import IllegalCyclicReferenceV8SerializeError

PROP = "C01"
RUNS = {"quick": 20000, "thorough": 300000}
RULE = (
    "scenario = 1-5 random value graphs (swarm-chosen node kinds, boundary-biased values, "
    "sharing and cycles), a feature set, and a mesh plan (hosts, loss, duplication, delay, "
    "fragmentation, crashes, torn/full disk, receive-buffer kinds); non-trivial when a graph "
    "with at least two nodes was delivered and decoded; distinct by trace digest"
)
STATE_MEASURE = "multiset of node kinds reachable x feature set x receive-buffer kind"
COMPONENTS = {
    "v8serialize encode/decode/jstypes": "real",
    "hosts, links, disks, receive buffers, clock": "stub (sim/mesh.py)",
}
ASSUMPTIONS = [
    "strings contain no lone surrogates (the library documents UTF-8/UTF-16 strings and rejects them)",
    "equal immutable values (tuples, frozensets, bytes, patterns, views of bytes) may be merged",
]
DECODER = Decoder()
# a receiver which wants errors as plain data, not as exceptions
DATA_DECODER = Decoder(decode_steps=[TagReader(js_error_builder=JSErrorData.builder)])


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 3, 5])
    return {
        "msgs": [{"g": G.flavoured(r, 0.2, G.gen_graph(r, big=0.005)), "f": G.gen_features(r)} for _ in range(n)],
        "api": r.randrange(3),
        "mesh": M.gen_mesh(r, n),
        "rx": r.randrange(6),
    }


EXPECT = {
    "illegal-cycle": IllegalCyclicReferenceV8SerializeError,
    "float16": UnhandledValueEncodeV8SerializeError,
    "unicode-sets": FeatureNotEnabledEncodeV8SerializeError,
}
STEPS = (G.cust_step, *default_encode_steps)


def encode(graph, features, api, encoders):
    v = graph.build()
    want = graph.predict(features)
    try:
        if api == 0:
            data = dumps(v, encode_steps=STEPS, features=features)
        else:
            enc = encoders.get(features.value)
            if enc is None or api == 1:
                enc = encoders[features.value] = Encoder(encode_steps=STEPS, features=features)
            data = bytes(enc.encode(v))
    except tuple(EXPECT.values()) as e:
        if want == "ok" or not isinstance(e, EXPECT[want]):
            raise Violation("refused", f"expected {want}, got {type(e).__name__}: {short(e)}")
        return None
    check(want == "ok", "not-refused", f"expected refusal: {want}")
    return data


def run(s, env):
    if not s["msgs"]:
        return
    encoders: dict = {}
    graphs, feats, sendable = [], [], []
    for m in s["msgs"]:
        f = G.features_of(m["f"])
        g = G.Graph(m["g"])
        env.calls += 1
        if encode(g, f, s["api"] % 3, encoders) is None:
            env.probe("refused_as_documented")
            env.log("refused")
            continue
        graphs.append(g)
        feats.append(f)

    def enc(i):
        env.calls += 1
        d = encode(graphs[i], feats[i], s["api"] % 3, encoders)
        return d

    def deliver(i, data, buf):
        env.calls += 1
        plain = s.get("rx", 1) == 0
        v = M.decode_buf(DATA_DECODER if plain else DECODER, buf)
        n = graphs[i].match(v, features=feats[i], types={"err": JSErrorData} if plain else None)
        env.log("matched", i, n)
        if n > 1:
            env.nontrivial = True
        kinds = sorted(graphs[i].nodes[c][0] for c in graphs[i].reachable())
        env.state(kinds, feats[i].value, buf.kind)
        for k in set(kinds):
            env.probe("kind_" + k)

    if graphs:
        M.Mesh(s["mesh"], len(graphs), enc, deliver, env).run()
