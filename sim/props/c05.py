"""C05: a message cut short is always rejected."""
from __future__ import annotations

import random

import graphs as G
import mesh as M
import wire as W
from core import Violation, check, exc_site, short

from v8serialize import Decoder, DecodeV8SerializeError, loads
from v8serialize.decode import TagReader
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.jstypes import JSArrayBuffer, JSArrayBufferTransfer, JSSharedArrayBuffer

PROP = "C05"
RUNS = {"quick": 16000, "thorough": 300000}
CHUNK = 100
RULE = (
    "scenario = a complete message (library, reference V8 releases, Node.js extension) on a "
    "simulated disk or link which loses its tail: every cut for short messages, otherwise a seeded "
    "sample that favours the last bytes and structural positions, each handed over in a seeded "
    "kind of buffer or short-reading file; non-trivial when at least one cut lay past the header; "
    "distinct by trace digest"
)
STATE_MEASURE = "kinds in the message x writer x error message shape of one cut"
COMPONENTS = {
    "v8serialize decode/jstypes/extensions/encode": "real",
    "foreign writers": "model (sim/refv8.py)",
    "disk/link that loses the tail": "stub",
}
ASSUMPTIONS = [
    "the format itself does not delimit an outermost array buffer from its view: that one cut is allowed",
]
DECODERS = [
    Decoder([TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())]),
    Decoder(),
]
BUFFERS = (JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer)
FAULTS = ["torn_write", "early_eof", "lost_tail"]


def gen(r, i, tier):
    msg = W.gen_source(r, 0.015)
    return {
        "msg": msg,
        "cuts": 9 if "big" in msg["g"] else
        r.choice([20, 60, 200, 10000]) if tier == "thorough" else r.choice([12, 30, 80]),
        "bufs": r.sample(M.Buf.KINDS, 3),
        "fault": r.choice(FAULTS),
        "seed": r.getrandbits(32),
        "only": None,
    }


def run(s, env):
    data, g = W.build(s["msg"])
    if data is None:
        env.log("refused")
        return
    r = random.Random(s["seed"])
    node = s["msg"]["w"].endswith("node")
    dec = DECODERS[0] if node else DECODERS[r.randrange(2)]
    # the complete message is fine
    whole = M.decode_buf(dec, M.Buf(s["bufs"][0] if s["bufs"] else "bytes", data, random.Random(s["seed"])))
    g.match(whole, **match_args(s, node))
    env.log("message", len(data))
    n = len(data)
    if n <= s["cuts"]:
        cuts = list(range(n))
    else:
        cuts = sorted({*range(max(0, n - s["cuts"] // 3), n),
                       *(r.randrange(n) for _ in range(s["cuts"]))})
    if s["only"] is not None:
        cuts = [c % n for c in [s["only"]]]
    ambiguous = []
    kinds = tuple(sorted({g._kind(c) for c in g.reachable()}))
    for cut in cuts:
        env.fault(s["fault"])
        kind = s["bufs"][cut % len(s["bufs"])] if s["bufs"] else "bytes"
        buf = M.Buf(kind, data[:cut], r)
        env.calls += 1
        env.nontrivial |= cut > 2
        try:
            v = M.decode_buf(dec, buf)
        except DecodeV8SerializeError as e:
            env.log("rejected", cut, str(e.args[0])[:40])
            if cut == cuts[-1]:
                env.state(kinds, s["msg"]["w"], str(e.args[0])[:16])
            continue
        except Exception as e:
            raise Violation(f"wrong-error:{type(e).__name__}",
                            f"cut at {cut} of {n}: {type(e).__name__} from {exc_site(e)}: "
                            f"{short(str(e), 200)}; {data.hex()[:300]}") from e
        if g._kind(g.root) in ("view", "mview", "cust") and isinstance(v, BUFFERS):
            ambiguous.append((cut, v))
            continue
        raise Violation("accepted-prefix", f"{cut} of {n} bytes decode to {short(v, 200)}; {data.hex()[:300]}")
    check(len(ambiguous) <= 1, "accepted-prefix",
          lambda: f"cuts {[c for c, _ in ambiguous]} of {n} all accepted; {data.hex()[:300]}")
    for cut, v in ambiguous:
        env.probe("buffer_view_boundary")
        full = whole.backing_buffer
        same = type(v) is type(full) and (
            bytes(v.data) == bytes(full.data) and v.max_byte_length == full.max_byte_length
            if isinstance(v, JSArrayBuffer) else v == full)
        check(same, "accepted-prefix", lambda: f"cut at {cut}: {short(v)} is not {short(full)}")


def match_args(s, node):
    import refv8 as V

    m = s["msg"]
    if m["w"].startswith("v8"):
        from props.c03 import features_for

        return {"features": features_for(V.RELEASES[m["rel"]], 0), "node_views": node}
    f = G.SerializationFeature(0)
    for x in G.SerializationFeature:
        if m["seed"] >> x.value.bit_length() & 3:
            f |= x
    return {"features": f, "node_views": node}
