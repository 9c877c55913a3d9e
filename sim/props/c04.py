"""C04: damaged data yields a value or a decode error, in bounded work."""
from __future__ import annotations

import datetime as dt
import random

import mesh as M
import wire as W
from core import Violation, check, exc_site, short
from meter import Meter, OverBudget

from v8serialize import Decoder, DecodeV8SerializeError, V8SerializeError, loads
from v8serialize.decode import TagReader

PROP = "C04"
RUNS = {"quick": 24000, "thorough": 600000}
CHUNK = 100
RULE = (
    "scenario = a message (from the library, from the reference V8, from the Node.js extension, "
    "forged token by token with lying lengths, or very deep) then damaged in transit by a seeded "
    "sequence of bit flips, overwritten, lost, duplicated, swapped or zeroed sectors, truncations "
    "and splices with another message, handed over in a seeded kind of buffer; non-trivial when "
    "the decoder got past the header; distinct by trace digest"
)
STATE_MEASURE = "outcome (value type or error message shape) x decoder options"
COMPONENTS = {
    "v8serialize decode/jstypes/extensions": "real",
    "writers of foreign messages": "model (sim/refv8.py) and forger (sim/wire.py)",
    "links and disks that damage messages": "stub (sim/wire.py)",
}
ASSUMPTIONS = [
    "work is counted in interpreter events and memory by tracemalloc; the allowance is linear "
    "in the message's length (plus quadratic for one over-long varint) with a wide margin",
]
UTC = dt.timezone.utc
OPTS = ["default", "loads", "loads_nonode", "tz", "reader_plain"]
DECODERS = {
    "default": Decoder(),
    "tz": Decoder([TagReader(default_timezone=UTC)]),
    "reader_plain": Decoder([TagReader()]),
}


def gen(r, i, tier):
    k = r.randrange(20)
    if i % 97 == 5:
        src = {"deep": r.choice(["arr", "map", "obj", "set", "err", "sparr"]),
               "n": r.choice([10, 60, 150, 400, 2000, 5000])}
    elif i % 97 == 6:
        src = {"long": r.choice(["varint", "bigint", "pad", "digits", "holes", "elems"]),
               "n": r.choice([10, 500, 5000, 20000])}
    elif k < 8:
        src = {"toks": W.gen_forged(r)}
        if r.random() < 0.25:  # the connection is lost between or just inside tokens
            del src["toks"][r.randrange(1, len(src["toks"]) + 1):]
            if r.random() < 0.5:
                src["toks"].append("%02x" % r.choice(b'\xff_0TFIUNZSc"o{A$a@;:\',^BtuV~Rr\\Dyxnzspm.'))
    else:
        src = {"msg": W.gen_source(r, 0.004)}
    return {
        "src": src,
        "ops": [] if ("toks" in src and r.random() < 0.7) else W.gen_damage(r, 1),
        "other": W.gen_forged(r),
        "opt": r.choice(OPTS),
        "buf": r.choice(M.Buf.KINDS),
        "seed": r.getrandbits(32),
    }


def long_message(kind, n):
    if kind == "varint":
        return b"\xff\x0fU" + b"\xff" * n + b"\x01"
    if kind == "bigint":
        return b"\xff\x0fZ" + W.varint(n << 1) + b"\xff" * n
    if kind == "pad":
        return b"\xff\x0f" + b"\0" * n + b"0"
    if kind == "digits":
        return b'\xff\x0fo"' + W.varint(n) + b"9" * n + b"0{\x01"
    if kind == "holes":
        return b"\xff\x0fA" + W.varint(n) + b"-" * n + b"$\0" + W.varint(n)
    return b"\xff\x0fA" + W.varint(n) + b"_" * n + b"$\0" + W.varint(n)


def message(src):
    if "toks" in src:
        return b"".join(bytes.fromhex(t) for t in src["toks"])
    if "deep" in src:
        return W.nested(src["deep"], src["n"])
    if "long" in src:
        return long_message(src["long"], src["n"])
    return W.build(src["msg"])[0]


def decode(opt, buf):
    if opt == "loads" and buf.fp is None:
        return loads(buf.obj)
    if opt == "loads_nonode" and buf.fp is None:
        return loads(buf.obj, nodejs=False)
    return M.decode_buf(DECODERS.get(opt, DECODERS["default"]), buf)


def allowance(n):
    return 3000 + 400 * n, 128 * 1024 + 4000 * n


def run(s, env):
    data = message(s["src"])
    if data is None:
        env.log("refused")
        return
    env.log("message", len(data))
    other = b"".join(bytes.fromhex(t) for t in s["other"])
    data = W.apply_damage(data, s["ops"], other, env)
    env.nontrivial = len(data) > 2
    env.log("damaged", data.hex()[:200])
    outcomes = []
    steps, mem = allowance(len(data))
    for attempt in (0, 1):
        buf = M.Buf(s["buf"], data, random.Random(s["seed"]))
        env.calls += 1
        meter = Meter(steps)
        value = None
        try:
            with meter:
                value = decode(s["opt"], buf)
            out = ("value", type(value).__name__)
        except DecodeV8SerializeError as e:
            out = ("error", type(e).__name__, str(e.args[0])[:60])
            # the documented attributes describe where
            check(isinstance(e.position, int) and isinstance(e, ValueError), "error-attributes",
                  lambda: short(e))
            e = None
        except OverBudget:
            raise Violation("unbounded-work", f"more than {steps} interpreter events for "
                            f"{len(data)} bytes: {short(data, 300)}") from None
        except MemoryError as e:
            raise Violation("unbounded-memory", f"MemoryError for {len(data)} bytes: "
                            f"{short(data, 300)}") from None
        except Exception as e:
            raise Violation(
                f"wrong-error:{type(e).__name__}",
                f"{type(e).__name__} from {exc_site(e)}: {short(str(e), 150)}; data {data.hex()[:300]}",
            ) from e
        if meter.peak > mem:
            raise Violation("unbounded-memory", f"{meter.peak} bytes at peak for a message of "
                            f"{len(data)} bytes: {short(data, 300)}")
        env.probe("outcome_" + out[0])
        env.probe("max_work_per_byte_x100", 0)
        outcomes.append((out, meter.steps))
        if attempt == 0:
            env.log(*out)
            value = None
    check(outcomes[0][0] == outcomes[1][0], "not-repeatable",
          lambda: f"{outcomes[0][0]} then {outcomes[1][0]}")
    env.state(outcomes[0][0], s["opt"])
