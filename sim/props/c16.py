"""C16: decoded values and encoded bytes are independent of their buffers."""
from __future__ import annotations

import array
import ctypes
import gc
import io
import mmap
import os
import random
import weakref
from collections import deque

import graphs as G
import mesh as M
import wire as W
from core import Violation, check, short

from v8serialize import Decoder, DecodeV8SerializeError, Encoder, V8SerializeError, default_encode_steps, dumps
from v8serialize.decode import TagReader
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from v8serialize.jstypes import JSArray, JSArrayBuffer, JSError, JSErrorData, JSMap, JSObject, JSSet
from v8serialize.jstypes import JSDataView, JSTypedArray

from .c05 import match_args

PROP = "C16"
RUNS = {"quick": 14000, "thorough": 200000}
CHUNK = 50
RULE = (
    "scenario = a host with a few receive slots of seeded kinds (any bytes-like object, borrowed "
    "windows, memory maps, files) and 1-3 messages (library, reference V8 releases, Node.js views), "
    "and a seeded history of: receive and decode, decode again, decode after damage, overwrite / "
    "resize / release / reuse a slot, mutate a decoded value in place, serialize a value, mutate the "
    "value, overwrite or resize the produced bytes, use them as input; after each step every value "
    "and output not deliberately changed must be as it was; distinct by trace digest"
)
STATE_MEASURE = "operation x slot kind x kinds of value in the message"
COMPONENTS = {
    "v8serialize decode/encode/jstypes/extensions": "real",
    "foreign writers": "model (sim/refv8.py)",
    "receive slots, their owner, files": "real objects driven by the simulated host",
}
ASSUMPTIONS = [
    "an exception raised by a failed decode may hold the input while it is alive",
]

KINDS = ["bytes_sub", "bytearray", "mv_bytearray", "mv_window", "mv_array", "array", "ctypes", "mmap",
         "mv_mmap", "exporter", "fp_bytesio", "fp_bytearray", "fp_mv", "fp_file", "mv_ctypes", "picture"]
OPS = ["recv", "recv", "recv", "again", "damaged", "recycle", "recycle", "recycle", "mutate", "encode",
       "encode", "mutval", "scribout", "decout", "reencode"]


def gen(r, i, tier):
    n = r.choice([1, 1, 2, 3])
    ops = [["recv", r.randrange(4), r.getrandbits(16)]]
    for _ in range(r.choice([3, 5, 8, 12] if tier == "quick" else [5, 10, 20])):
        ops.append([r.choice(OPS), r.randrange(8), r.getrandbits(16)])
    msgs = []
    for _ in range(n):
        m = W.gen_source(r, 0.004)
        if r.random() < 0.25:  # mostly binary data
            m["g"] = G.gen_graph(r, size=r.choice([1, 3, 6]), leaf_kinds=["bytes", "ab", "ab", "barr"]
                                 if m["w"].startswith("py") else ["bytes", "ab"],
                                 comps=["list", "obj", "view", "view", "map"])
        if r.random() < 0.08:  # large pieces of it
            for nd in m["g"]["nodes"]:
                if nd[0] in ("bytes", "barr", "ab", "mview") and r.random() < 0.5:
                    size = r.choice([512, 1024, 2048, 4096, 5000, 8192, 16384, 65536])
                    nd[1] = ("%02x" % r.randrange(1, 255)) * (size + r.choice([-1, 0, 0, 1]))
                    if nd[0] == "ab" and nd[2] is not None:
                        nd[2] += size
        msgs.append(m)
    return {"msgs": msgs, "slots": [r.choice(KINDS) for _ in range(r.choice([1, 2, 2, 3]))], "ops": ops}


class Sub(bytes):
    """Its attribute dies with it."""


class Token:
    pass


class Exporter:
    """Pins its memory while borrowed, like a DMA slot or an extension type."""

    def __init__(self, data):
        self.data = bytearray(data)
        self.borrowed = 0

    def __buffer__(self, flags):
        self.borrowed += 1
        return memoryview(self.data)

    def __release_buffer__(self, view):
        view.release()
        self.borrowed -= 1


class Slot:
    """Memory some transport puts messages into."""

    def __init__(self, kind):
        self.kind = kind
        self.obj = self.mem = self.fp = None

    def fill(self, data, r):
        k = self.kind
        self.data = data
        self.obj = self.mem = self.fp = None
        if k == "bytes_sub":
            self.obj = Sub(data)
            self.obj.token = Token()
        elif k == "bytearray":
            self.obj = self.mem = bytearray(data)
        elif k == "mv_bytearray":
            self.mem = bytearray(data)
            self.obj = memoryview(self.mem)
        elif k == "mv_window":
            pre, post = r.randrange(0, 9), r.randrange(0, 9)
            self.mem = bytearray(r.randbytes(pre) + data + r.randbytes(post))
            self.obj = memoryview(self.mem)[pre : pre + len(data)]
        elif k == "picture":  # two dimensions, or items of more than one byte
            self.mem = bytearray(data)
            self.obj = memoryview(self.mem)
            if len(data) % 2 == 0 and data:
                self.obj = self.obj.cast("B", [2, len(data) // 2])
                self.obj = self.obj.cast("B")
        elif k == "array":
            self.obj = self.mem = array.array("B", data)
        elif k == "mv_array":
            self.mem = array.array("B", data)
            self.obj = memoryview(self.mem).toreadonly()
        elif k in ("ctypes", "mv_ctypes"):
            self.obj = self.mem = (ctypes.c_ubyte * len(data)).from_buffer_copy(data)
            if k == "mv_ctypes":
                self.obj = memoryview(self.mem).cast("B")
        elif k in ("mmap", "mv_mmap"):
            self.mem = mmap.mmap(-1, max(1, len(data)))
            self.mem[: len(data)] = data
            self.obj = self.mem
            if k == "mv_mmap":
                self.obj = memoryview(self.mem)
        elif k == "exporter":
            self.obj = self.mem = Exporter(data)
        elif k == "fp_bytesio":
            self.fp = self.mem = io.BytesIO(data)
        elif k == "fp_bytearray":
            self.mem = bytearray(data)
            self.fp = M.OneRead(self.mem)
        elif k == "fp_mv":
            self.mem = bytearray(data)
            self.fp = M.OneRead(memoryview(self.mem))
        else:
            self.fp = M.real_file(data, 0, False, -1)

    @property
    def full(self):
        return self.obj is not None or self.fp is not None

    def decode(self, dec):
        """Decodes, without anything of the harness's left holding the memory."""
        if self.fp is None:
            return dec.decodes(self.obj)
        if self.kind != "fp_file" and self.kind != "fp_bytesio":
            self.fp.v = self.mem if self.kind == "fp_bytearray" else memoryview(self.mem)
        else:
            self.fp.seek(0)
        try:
            return dec.decode(self.fp)
        finally:
            if isinstance(self.fp, M.OneRead):
                self.fp.v = self.fp.last = None

    def content(self):
        if self.kind == "fp_file":
            return os.pread(self.fp.fileno(), 1 << 24, 0)
        if self.kind == "fp_bytesio":
            return self.mem.getvalue()
        if self.kind == "exporter":
            return bytes(self.mem.data)
        if self.fp is not None:
            return bytes(self.mem)
        return bytes(self.obj)

    def scribble(self, r):
        k = self.kind
        if k == "fp_file":
            w = os.open(f"/proc/self/fd/{self.fp.fileno()}", os.O_RDWR)
            os.pwrite(w, r.randbytes(len(self.data)), 0)
            os.close(w)
        elif k == "fp_bytesio":
            with self.mem.getbuffer() as b:
                b[:] = r.randbytes(len(b))
        elif k == "bytes_sub":
            return False
        else:
            m = self.mem.data if k == "exporter" else self.mem
            for j in range(len(m)):
                m[j] = r.randrange(256)
        return True

    def resize(self):
        """Gives the memory back; refused by Python if someone still borrows it."""
        k = self.kind
        if k == "exporter":
            check(self.mem.borrowed == 0, "input-held", f"memory borrowed {self.mem.borrowed} times")
            self.obj = None
            return True
        try:
            if isinstance(self.obj, memoryview):
                self.obj.release()
            if k in ("mmap", "mv_mmap"):
                self.mem.close()
            elif k == "fp_bytesio":
                self.mem.truncate(0)
            elif k == "fp_file":
                w = os.open(f"/proc/self/fd/{self.fp.fileno()}", os.O_RDWR)
                os.ftruncate(w, 0)
                os.close(w)
            elif k == "bytes_sub":
                w = weakref.ref(self.obj.token)
                self.obj = None
                if w() is not None:
                    gc.collect()
                check(w() is None, "input-held", "the input object outlives its last user")
            elif isinstance(self.mem, bytearray):
                self.mem.clear()
            elif isinstance(self.mem, array.array):
                del self.mem[:]
        except BufferError as e:
            raise Violation("input-held", f"{k}: {e}")
        self.obj = self.fp = None
        return True


# -- changing everything that can be changed ---------------------------------


def reach(v):
    """Every object of a value that can change, each once."""
    seen: dict = {}
    todo = [v]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        kids: list = []
        if isinstance(x, (JSObject, JSMap, dict)):
            kids = [*x.keys(), *x.values()]
        elif isinstance(x, (JSSet, list, deque, set)):
            kids = [*x]
        elif isinstance(x, (tuple, frozenset)):
            todo.extend(x)
            continue
        elif isinstance(x, (JSError, JSErrorData)):
            kids = [x.cause]
        elif isinstance(x, (JSTypedArray, JSDataView)):
            todo.append(x.backing_buffer)
            seen[id(x)] = x
            continue
        elif isinstance(x, G.Cust):
            kids = list(x.items)
        elif isinstance(x, (JSArrayBuffer, bytearray)):
            pass
        else:
            continue
        seen[id(x)] = x
        todo.extend(kids)
    return seen


def vandalise(v, r) -> int:
    n = 0
    for x in reach(v).values():
        n += 1
        if isinstance(x, JSObject):
            for k in list(x):
                x[k] = "vandal"
            x["vandal"] = r.randrange(9)
            if isinstance(x, JSArray):
                x.array.append("vandal") if len(x.array) < 2**32 - 1 else None
            if r.random() < 0.3:
                x.clear()
        elif isinstance(x, (JSMap, dict)):
            for k in list(x):
                x[k] = "vandal"
            if r.random() < 0.5:
                x.clear()
            x["vandal"] = 1
        elif isinstance(x, (JSSet, set)):
            if r.random() < 0.5:
                x.clear()
            x.add("vandal")
        elif isinstance(x, (list, deque)):
            x.reverse()
            x.append("vandal")
        elif isinstance(x, G.Cust):
            x.items = ["vandal"]
        elif isinstance(x, (JSError, JSErrorData)):
            x.message = x.stack = "vandal"
            x.name = "RangeError"
            x.cause = 7
        elif isinstance(x, bytearray):
            for j in range(len(x)):
                x[j] ^= 0x55
            try:
                x.append(1)
            except BufferError:
                # decoded or plain data: nothing of ours borrows it, but a
                # memoryview elsewhere in the same value may
                pass
        elif isinstance(x, JSArrayBuffer):
            with x.data as d:
                if not d.readonly:
                    for j in range(len(d)):
                        d[j] ^= 0x55
            if x.resizable:
                x.resize(0)
                x.resize(x.max_byte_length)
    return n


# -- running ------------------------------------------------------------------


def run(s, env):
    msgs = []
    for m in s["msgs"]:
        data, g = W.build(m)
        if data is not None:
            msgs.append((m, data, g))
    if not msgs:
        env.log("nothing sendable")
        return
    decs = {
        True: Decoder([TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())]),
        False: Decoder(),
    }
    encs: dict = {}
    slots = [Slot(k) for k in s["slots"] or ["bytearray"]]
    owner: list = [None] * len(slots)
    held: list = []  # [message index, value] as decoded
    outs: list = []  # [source graph, value, options, output, snapshot]

    def encode(opt, v):
        steps, f = opt
        e = encs.get(opt)
        if e is None:
            st = [G.cust_step, *default_encode_steps]
            if steps:
                st.insert(1, serialize_js_array_buffer_views_as_nodejs_host_object)
            e = encs[opt] = Encoder(encode_steps=st, features=G.features_of(f))
        return e.encode(v)

    def decode(mi, how):
        m, data, g = msgs[mi]
        env.calls += 1
        v = how(decs[m["w"].endswith("node")])
        g.match(v, **match_args({"msg": m}, m["w"].endswith("node")))
        mine = reach(v)
        for _, other in held:
            both = mine.keys() & reach(other).keys()
            check(not both, "shared-state", lambda: f"two decodes share {short(mine[next(iter(both))])}")
        held.append([mi, v])
        if len(held) > 4:
            held.pop(0)

    def verify(where):
        for j, (mi, v) in enumerate(held):
            m, data, g = msgs[mi]
            try:
                g.match(v, **match_args({"msg": m}, m["w"].endswith("node")))
            except Violation as e:
                raise Violation("value-changed", f"after {where}: value {j} changed: {e}") from None
        for j, o in enumerate(outs):
            check(o[3] is None or bytes(o[3]) == o[4], "output-changed", lambda: f"after {where}: output {j} changed")

    for op, a, b in s["ops"]:
        r = random.Random(b)
        env.log(op, a)
        si = a % len(slots)
        slot = slots[si]
        if op == "recv":
            mi = b % len(msgs)
            slot.fill(msgs[mi][1], r)
            owner[si] = mi
            decode(mi, slot.decode)
            check(slot.content()[: len(slot.data)] == slot.data, "input-changed", f"decoding changed a {slot.kind}")
            env.probe("slot_" + slot.kind)
            env.state(op, slot.kind, tuple(sorted({msgs[mi][2]._kind(c) for c in msgs[mi][2].reachable()})))
        elif op == "again":
            if not slot.full or owner[si] is None:
                continue
            decode(owner[si], slot.decode)
            check(slot.content()[: len(slot.data)] == slot.data, "input-changed", f"decoding changed a {slot.kind}")
            env.probe("decoded_again")
        elif op == "damaged":
            mi = b % len(msgs)
            d = W.apply_damage(msgs[mi][1], W.gen_damage(r, 1), msgs[0][1], env)
            if r.random() < 0.5:
                d = d[: r.randrange(len(d) + 1)]
            if not d:
                continue
            slot.fill(d, r)
            owner[si] = None
            env.calls += 1
            try:
                slot.decode(decs[msgs[mi][0]["w"].endswith("node")])
            except DecodeV8SerializeError:
                env.probe("damaged_rejected")
            check(slot.content()[: len(d)] == d, "input-changed", f"decoding damaged data changed a {slot.kind}")
            slot.resize()
        elif op == "recycle":
            if not slot.full:
                continue
            env.nontrivial = True
            owner[si] = None
            how = b % 3
            if how < 2 and slot.scribble(r):
                env.fault("slot_overwritten")
                env.probe("overwritten_" + slot.kind)
            if how > 0:
                slot.resize()
                env.fault("slot_released")
                env.probe("released_" + slot.kind)
            env.state(op, slot.kind, how)
        elif op == "mutate":
            if not held:
                continue
            mi, v = held.pop(a % len(held))
            n = vandalise(v, r)
            if n:
                env.fault("value_mutated")
            env.state(op, n > 0, tuple(sorted({msgs[mi][2]._kind(c) for c in msgs[mi][2].reachable()})))
        elif op == "encode":
            src = msgs[a % len(msgs)]
            g = G.Graph(src[0]["g"])
            v = g.build()
            opt = (b & 1, b >> 1 & 31)
            if b & 64 and len(held):  # forward what was received
                v = held[a % len(held)][1]
                g = None
            env.calls += 1
            try:
                out = encode(opt, v) if b & 128 else dumps(
                    v, encode_steps=[G.cust_step, *default_encode_steps], features=G.features_of(opt[1]))
            except V8SerializeError:
                env.probe("refused")
                continue
            if not b & 128:
                opt = None
            outs.append([g, v, opt, out, bytes(out)])
            if len(outs) > 4:
                outs.pop(0)
        elif op == "reencode":
            live = [o for o in outs if o[2] is not None and o[1] is not None]
            if not live:
                continue
            o = live[a % len(live)]
            if o[0] is None and not any(v is o[1] for _, v in held):
                continue
            env.calls += 1
            out = encode(o[2], o[1])
            check(bytes(out) == o[4], "reencode", lambda: f"{bytes(out).hex()[:200]} != {o[4].hex()[:200]}")
            check(out is not o[3], "shared-state", "two calls returned the same buffer")
        elif op == "mutval":
            mine = [o for o in outs if o[0] is not None and o[1] is not None]
            if not mine:
                continue
            o = mine[a % len(mine)]
            if vandalise(o[1], r):
                env.fault("source_mutated")
            o[1] = None
            env.nontrivial = True
        elif op == "scribout":
            live = [o for o in outs if isinstance(o[3], bytearray)]
            if not live:
                continue
            o = live[a % len(live)]
            for j in range(len(o[3])):
                o[3][j] = r.randrange(256)
            try:
                o[3].clear()
            except BufferError as e:
                raise Violation("output-held", f"the bytes produced cannot be resized: {e}") from None
            o[3] = None
            env.fault("output_overwritten")
            env.nontrivial = True
        elif op == "decout":
            live = [o for o in outs if o[3] is not None]
            if not live:
                continue
            o = live[a % len(live)]
            node = o[2] is not None and o[2][0]
            env.calls += 1
            v = decs[bool(node)].decodes(o[3])
            check(bytes(o[3]) == o[4], "input-changed", "decoding changed its input")
            mine = reach(v)
            for _, other in held:
                check(not mine.keys() & reach(other).keys(), "shared-state", "decoded values share mutable parts")
            if o[1] is not None:
                check(not mine.keys() & reach(o[1]).keys(), "shared-state",
                      "the decoded value shares mutable parts with the encoded one")
            vandalise(v, r)
            check(bytes(o[3]) == o[4], "output-changed", "changing a decoded value changed its input")
        verify(op)
