"""C11: buffers and views against a byte-level reference, through any history."""
from __future__ import annotations

import array
import math
import random
import struct

import graphs as G
import refv8
from core import check, short

from v8serialize import dumps, loads
from v8serialize.jstypes import (
    ArrayBufferViewStructFormat,
    JSArrayBuffer,
    create_view,
)
import v8serialize.jstypes.jsbuffers as B

PROP = "C11"
RUNS = {"quick": 80000, "thorough": 2000000}
CHUNK = 100
RULE = (
    "scenario = a seeded history of resizes, external growth and shrinkage, reads and writes through "
    "overlapping views, borrowed and returned memory, refused operations, construction of views and "
    "round trips through the wire, over up to three buffers of nine kinds; non-trivial when an operation "
    "was refused or a view left its buffer's range; distinct by trace digest"
)
STATE_MEASURE = "operation x buffer kind x view type x range state x outcome"
COMPONENTS = {
    "v8serialize JSArrayBuffer, views, DataViewBuffer, create_view": "real",
    "v8serialize dumps/loads": "real",
    "memory owners and borrowers": "simulated (who holds which memoryview when, and who resizes what)",
    "V8 reader": "reference model (sim/refv8.py)",
}
ASSUMPTIONS = ["little-endian host", "CPython reference counting returns borrowed memory at once"]

KINDS = ["fix", "rs", "rs", "rs", "ro", "ba", "ba", "by", "mv", "wba", "wrs", "wmv", "wro"]
TYPES = "bBCwWdDhfFqQ?"
FMT = {"b": "b", "B": "B", "C": "B", "w": "h", "W": "H", "d": "i", "D": "I", "h": "e", "f": "f", "F": "d",
       "q": "q", "Q": "Q"}
DV = {
    "bigint64": "q", "biguint64": "Q", "float16": "e", "float32": "f", "float64": "d", "int16": "h", "int32": "i",
    "uint16": "H", "uint32": "I", "int8": "b", "uint8": "B",
}
VALUES = [0, 1, -1, 127, 128, 255, -128, 65535, 2**31 - 1, -(2**31), 2**32 - 1, 2**63 - 1, -(2**63), 2**64 - 1,
          10**30, 0.5, -0.0, 1.5, 1e300, "nan", "inf", "text"]


class Failed(Exception):
    pass


def value_of(v):
    return {"nan": math.nan, "inf": math.inf}.get(v, v) if isinstance(v, str) else v


# -- scenarios -----------------------------------------------------------------


def gen_off(r):
    return r.choice([0, 0, 1, 2, 3, 4, 7, 8, 12, 16, 24])


def gen(r, i, tier):
    n = r.choice([5, 12, 30] if tier == "quick" else [5, 30, 80])
    bufs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        bufs.append([r.choice(KINDS), r.choice([0, 1, 2, 3, 7, 8, 12, 16, 17, 24, 32]), r.randrange(0, 40),
                     r.randrange(1 << 16)])
    ops = []
    for _ in range(n):
        k = r.random()
        b = r.randrange(3)
        if k < 0.18:
            ops.append(["view", b, r.choice(TYPES), r.choice(["ctor", "ctor", "from", "create", "bk"]), gen_off(r),
                        r.choice([None, None, 0, 1, 2, 3, 4, 8, 16]), r.random() < 0.15, r.randrange(4)])
        elif k < 0.36:
            ops.append(["resize", b, r.choice([0, 1, 3, 4, 8, 11, 16, 24, 32, 40, 64, -1, "max", "max+1", "same"])])
        elif k < 0.43:
            ops.append(["ext", b, r.choice(["append", "extend", "clear", "pop", "insert", "cut", "poke"]), r.randrange(256)])
        elif k < 0.5:
            ops.append(["hold", r.randrange(6), r.choice(["view", "view", "data", "buf", "dv"]), r.randrange(6)])
        elif k < 0.6:
            ops.append(["release", r.randrange(6)])
        elif k < 0.75:
            ops.append(["write", r.randrange(6), r.randrange(-3, 9), r.choice(VALUES), r.randrange(4)])
        elif k < 0.82:
            ops.append(["dv", r.randrange(6), r.choice(sorted(DV)), r.randrange(-2, 20), r.choice(VALUES),
                        r.random() < 0.5, r.random() < 0.5])
        elif k < 0.87:
            ops.append(["fill", r.randrange(6), r.randrange(256)])
        elif k < 0.9:
            ops.append(["held_write", r.randrange(6), r.randrange(8), r.randrange(256)])
        elif k < 0.96:
            ops.append(["wire", r.randrange(1 << 16), r.choice([True, True, False]), r.random() < 0.3])
        elif k < 0.98:
            ops.append(["badbuf", b, r.randrange(4)])
        else:
            ops.append(["close", b])
    return {"bufs": bufs, "ops": ops}


# -- the reference ----------------------------------------------------------


class Buf:
    """A buffer and the reference for its bytes."""

    def __init__(self, kind, ref, real, ext=None, cap=None, resizable=False, readonly=False, pinned=False):
        self.kind = kind
        self.ref = ref  # bytearray: all the bytes of the memory behind it
        self.real = real
        self.ext = ext  # the bytearray its owner may change, if any
        self.cap = cap  # most bytes it exposes
        self.resizable = resizable
        self.readonly = readonly
        self.pinned = pinned  # the buffer itself borrows ext for good
        self.exports = 0
        self.dead = False
        self.closes = kind == "wro"

    @property
    def js(self):
        return self.kind not in ("ba", "by", "mv")

    @property
    def tracks(self):
        return self.resizable or self.kind == "ba"

    @property
    def visible(self):
        return bytes(self.ref if self.cap is None else self.ref[: self.cap])

    @property
    def borrowed(self):
        return self.exports > 0 or self.pinned


def pattern(n, seed):
    return bytes((seed * 31 + j * 7 + 1) % 256 for j in range(n))


def new_buf(kind, n, extra, seed):
    p = pattern(n, seed)
    how = seed % 3
    if kind == "fix":
        src = [p, bytearray(p), memoryview(p)][how]
        return Buf(kind, bytearray(p), JSArrayBuffer(src), cap=n)
    if kind == "rs":
        if how == 0:
            p = bytes(n)
            real = JSArrayBuffer(n, max_byte_length=n + extra)
        else:
            real = JSArrayBuffer([p, bytearray(p)][how - 1], max_byte_length=n + extra)
        return Buf(kind, bytearray(p), real, cap=n + extra, resizable=True)
    if kind == "ro":
        real = JSArrayBuffer(p, readonly=True, copy_data=[True, False, None][how])
        return Buf(kind, bytearray(p), real, cap=n, readonly=True)
    if kind == "ba":
        ext = bytearray(p)
        return Buf(kind, bytearray(p), ext, ext=ext)
    if kind == "by":
        return Buf(kind, bytearray(p), p, readonly=True)
    if kind == "mv":
        back = bytearray(b"\x11" * 3 + p + b"\x22" * 5)
        mv = memoryview(back)[3 : 3 + n]
        if how == 0:
            mv = mv.toreadonly()
        return Buf(kind, bytearray(p), mv, readonly=how == 0, pinned=True)
    if kind == "wba":
        ext = bytearray(p)
        return Buf(kind, bytearray(p), JSArrayBuffer(ext, copy_data=False), ext=ext, cap=n)
    if kind == "wrs":
        ext = bytearray(p)
        real = JSArrayBuffer(ext, copy_data=False, max_byte_length=n + extra)
        return Buf(kind, bytearray(p), real, ext=ext, cap=n + extra, resizable=True)
    if kind == "wmv":
        code = "BHIQdb"[seed % 6]
        size = struct.calcsize(code)
        p = pattern(n - n % size, seed)
        if code == "d":
            p = b"".join(struct.pack("<d", x) for x in range(len(p) // 8))
        if how == 0:
            data = array.array(code, p)
        elif how == 1:
            data = memoryview(bytearray(p)).cast(code)
        else:
            data = memoryview(array.array(code, p))
        b = Buf(kind, bytearray(p), JSArrayBuffer(data, copy_data=False), cap=len(p))
        b.closes = how != 0
        if how:
            data.release()  # the caller is done with its own memoryview
        return b
    ext = bytearray(p)
    real = JSArrayBuffer(ext, copy_data=False, readonly=True)
    return Buf(kind, bytearray(p), real, ext=ext, cap=n, readonly=True, pinned=True)


class View:
    def __init__(self, t, buf, off, length, readonly, real, bk=False):
        self.t = t
        self.buf = buf
        self.size = G.VIEW_CLASSES[t][1]
        self.off = off  # items
        self.length = length  # items or None
        self.readonly = readonly
        self.real = real
        self.bk = bk

    @property
    def tracking(self):
        return self.length is None and self.buf.tracks

    def range(self):
        """(in range, byte offset, byte length) by JavaScript's rules."""
        total = len(self.buf.visible)
        at = self.off * self.size
        if self.length is None:
            if at > total:
                return False, 0, 0
            return True, at, (total - at) // self.size * self.size
        n = self.length * self.size
        if at + n > total:
            return False, 0, 0
        return True, at, n

    def bytes(self):
        _, at, n = self.range()
        return self.buf.visible[at : at + n]

    @property
    def writable(self):
        return not (self.readonly or self.buf.readonly)


def cls_for(t, bk=False):
    if bk and t == "h" and hasattr(B, "BackportJSFloat16Array"):
        return B.BackportJSFloat16Array
    return G.view_class(t)[0]


# -- running ----------------------------------------------------------------


def run(s, env):
    bufs = [new_buf(*b) for b in s["bufs"]] or [new_buf("rs", 8, 8, 1)]
    views: list = []
    holds: list = []

    def verify(where):
        for j, b in enumerate(bufs):
            if b.dead:
                continue
            env.calls += 1
            want = b.visible
            if b.js:
                with b.real.data as d, memoryview(b.real) as m:
                    check(bytes(d) == want and bytes(m) == want and d.nbytes == len(want), "buffer-bytes",
                          lambda: f"{where}: buffer {j} ({b.kind}) {short(bytes(d))} expected {short(want)}")
                check(b.real.max_byte_length == b.cap and b.real.resizable == b.resizable, "buffer-limits",
                      lambda: f"{where}: buffer {j} max {b.real.max_byte_length}")
            else:
                check(bytes(b.real) == want, "buffer-bytes", lambda: f"{where}: buffer {j} ({b.kind})")
            if b.ext is not None:
                check(bytes(b.ext) == bytes(b.ref), "owner-bytes", lambda: f"{where}: buffer {j} ({b.kind})")
        for j, v in enumerate(views):
            if not v.buf.dead:
                verify_view(v, f"{where}: view {j} ({v.t} of {v.buf.kind}, {v.off}+{v.length})")
        for j, (m, b, get) in enumerate(holds):
            check(bytes(m) == get(), "held-bytes", lambda: f"{where}: hold {j} {short(bytes(m))} expected {short(get())}")

    def verify_view(v, where):
        inr, at, n = v.range()
        r = v.real
        want = v.bytes()
        check(r.is_in_range == inr, "view-range", lambda: f"{where}: is_in_range {r.is_in_range} expected {inr}")
        check(r.byte_offset == at, "view-offset", lambda: f"{where}: byte_offset {r.byte_offset} expected {at}")
        check(r.byte_length == n, "view-length", lambda: f"{where}: byte_length {r.byte_length} expected {n}")
        check(r.is_length_tracking == v.tracking, "view-tracking", lambda: f"{where}: {r.is_length_tracking}")
        check(r.is_backing_buffer_resizable == v.buf.tracks, "view-resizable", where)
        check(r.backing_buffer is v.buf.real, "view-buffer", where)
        with r.get_buffer_as_memoryview() as m:
            check(bytes(m) == want, "view-bytes", lambda: f"{where}: {short(bytes(m))} expected {short(want)}")
            check(m.readonly == (not v.writable), "view-readonly", lambda: f"{where}: readonly {m.readonly}")
        with r.get_buffer(readonly=True) as g:
            if v.t == "?":
                check(len(g) == n and bytes(g) == want, "view-data", where)
                check(g.buffer.readonly, "view-readonly", where)
            else:
                items = struct.unpack(f"<{n // v.size}{FMT[v.t]}", want)
                same = len(g) == len(items) and all(x == y or x != x and y != y for x, y in zip(g.tolist(), items))
                check(same, "view-items", lambda: f"{where}: {short(g.tolist())} expected {short(items)}")
                check(g.readonly, "view-readonly", where)

    def put(v, at, data):
        """What a write through v at byte `at` of it does."""
        _, off, n = v.range()
        assert at + len(data) <= n
        v.buf.ref[off + at : off + at + len(data)] = data

    def resize_ref(b, n):
        if n > len(b.ref):
            b.ref.extend(bytes(n - len(b.ref)))
        else:
            del b.ref[n:]

    for n, op in enumerate(s["ops"]):
        what = op[0]
        where = f"op {n} {what}"
        outcome = ""
        tag = ""
        if what == "view":
            b = bufs[op[1] % len(bufs)]
            if b.dead:
                continue
            outcome = tag = ""
            outcome = make_view(b, op, views, where, env)
            tag = b.kind + op[2]
        elif what == "resize":
            b = bufs[op[1] % len(bufs)]
            tag = b.kind
            if not b.js or b.dead:
                continue
            want = {"max": b.cap, "max+1": b.cap + 1, "same": len(b.ref)}.get(op[2], op[2])
            if not b.resizable or not 0 <= want <= b.cap:
                expect = "refused"
            elif b.borrowed and want != len(b.ref):
                expect = "borrowed"
            else:
                expect = "ok"
                resize_ref(b, want)
            try:
                b.real.resize(want)
                outcome = "ok"
            except B.ByteLengthJSArrayBufferError as e:
                outcome = "refused"
                check(e.byte_length == want and e.max_byte_length == b.cap, "error-details", where)
            except BufferError:
                outcome = "borrowed"
            check(outcome == expect, "resize", lambda: f"{where}: {b.kind} to {want}: {outcome} expected {expect}")
            if outcome != "ok":
                env.fault("resize_" + outcome)
        elif what == "ext":
            b = bufs[op[1] % len(bufs)]
            tag = b.kind + op[2]
            if b.ext is None:
                continue
            outcome = external(b, op)
            check(outcome != "unexpected", "memory-kept", lambda: f"{where}: the owner cannot resize memory nobody holds")
            if outcome == "borrowed":
                env.fault("owner_blocked")
            elif outcome == "ok":
                env.fault("owner_changes_memory")
        elif what == "hold":
            if not views:
                continue
            v = views[op[1] % len(views)]
            tag = v.buf.kind + v.t + op[2]
            if v.buf.dead or len(holds) > 8:
                continue
            outcome = hold(v, op, holds)
        elif what == "release":
            if not holds:
                continue
            m, b, _ = holds.pop(op[1] % len(holds))
            m.release()
            b.exports -= 1
        elif what in ("write", "fill", "dv"):
            if not views:
                continue
            v = views[op[1] % len(views)]
            tag = v.buf.kind + v.t
            if v.buf.dead:
                continue
            outcome = write(v, op, put, where)
            if outcome != "ok":
                env.fault("refused_access")
        elif what == "held_write":
            if not holds:
                continue
            m, b, get = holds[op[1] % len(holds)]
            cur = get()
            if m.readonly or m.format != "B" or not cur:
                continue
            at = op[2] % len(cur)
            base = get(True)
            m[at] = op[3]
            b.ref[base + at] = op[3]
        elif what == "wire":
            live = [b for b in bufs if not b.dead]
            lv = [v for v in views if not v.buf.dead]
            outcome = wire(op, live, lv, where, env)
            if op[3] and not holds and all(b.kind not in ("by", "mv") for b in bufs):
                bufs, views = outcome[1] or bufs, outcome[2] if outcome[1] else views
            outcome = outcome[0]
        elif what == "badbuf":
            b = bufs[op[1] % len(bufs)]
            tag = b.kind
            outcome = bad_buffer(b, op, where)
            env.fault("refused_construction")
        elif what == "close":
            b = bufs[op[1] % len(bufs)]
            tag = b.kind
            if not b.js or b.dead or b.exports:
                continue
            if op[1] % 2:
                b.real.close()
            else:
                with b.real as bb:
                    check(bb is b.real, "context", where)
            if b.closes:
                # a released memoryview stays released; its owner has the memory back
                b.dead = True
                b.pinned = False
        for v in views:
            if not v.buf.dead and not v.range()[0]:
                env.nontrivial = True
                env.probe("view_out_of_range")
        verify(where)
        env.state(what, tag, outcome)
        env.log(n, what, tag, outcome, [len(b.ref) for b in bufs])
    for m, b, _ in holds:
        m.release()
        b.exports -= 1
    holds.clear()
    verify("end")
    for j, b in enumerate(bufs):
        # nobody borrows anything any more
        if b.ext is not None and not b.pinned:
            try:
                b.ext.append(1)
            except BufferError:
                check(False, "memory-kept", f"end: buffer {j} ({b.kind}) is still borrowed")
            b.ref.append(1)
        elif b.kind == "rs":
            try:
                b.real.resize(0)
                b.real.resize(b.cap)
            except BufferError:
                check(False, "memory-kept", f"end: buffer {j} ({b.kind}) is still borrowed")
            b.ref = bytearray(b.cap)
    verify("after")
    for j, v in enumerate(views):
        if v.buf.js and not v.buf.dead:
            printed(v.real, f"end: view {j} ({v.t} of {v.buf.kind})", env)
    env.advance(len(s["ops"]))


def printed(r, where, env):
    """The printed form of a view is the expression that makes it."""
    text = repr(r)
    if "<" in text or "..." in text:
        return  # cut short
    env.calls += 1
    try:
        c = eval(text, {"array": array.array, "bytearray": bytearray, **vars(B)})
    except B.ByteLengthJSArrayBufferError:
        return  # the owner of the wrapped memory has grown it past the buffer's limit
    with c.backing_buffer.data as x, r.backing_buffer.data as y:
        same = bytes(x) == bytes(y)
    got, want = [(type(v), v.item_offset, v.item_length, v.readonly, v.backing_buffer.max_byte_length) for v in (c, r)]
    check(same and got == want, "printed-form", lambda: f"{where}: {short(text, 300)}: {got} expected {want}")


def make_view(b, op, views, where, env):
    _, _, t, how, off, length, ro, mis = op
    cls = cls_for(t, how == "bk")
    size = G.VIEW_CLASSES[t][1]
    ro = True if ro else None
    total = len(b.visible)
    if how in ("ctor", "bk"):
        items_off = off // size if mis else off
        items_len = None if length is None else (length // size if mis else length)
        if mis == 3:
            args = dict(item_offset=items_off, item_length=items_len, readonly=ro)
            real = cls(b.real, **args)
        else:
            real = cls(b.real, items_off, items_len, ro)
        v = View(t, b, items_off, items_len, ro, real, bk=how == "bk" and t == "h")
    else:
        at = off if mis == 0 else off * size
        n = None if length is None else (length if mis <= 1 else length * size)
        expect = "ok"
        if at % size or n is not None and n % size:
            expect = "alignment"
        elif n is None and not b.tracks and total % size:
            expect = "bounds"
        elif at > total or n is not None and at + n > total:
            expect = "bounds"
        try:
            if how == "from":
                real = cls.from_bytes(b.real, byte_offset=at, byte_length=n, readonly=ro)
            else:
                f = cls.view_tag if mis % 2 else ArrayBufferViewStructFormat(cls.view_tag)
                real = create_view(b.real, f, byte_offset=at, byte_length=n, readonly=ro)
            got = "ok"
        except B.ItemSizeJSArrayBufferError as e:
            got = "alignment"
            check((e.itemsize, e.byte_offset, e.byte_length) == (size, at, n), "error-details", where)
        except B.BoundsJSArrayBufferError as e:
            got = "bounds"
            check((e.byte_offset, e.byte_length, e.buffer_byte_length) == (at, n, total), "error-details", where)
        check(got == expect, "view-creation",
              lambda: f"{where}: {t} at {at} length {n} of {total} bytes of {b.kind}: {got} expected {expect}")
        if got != "ok":
            env.fault("view_refused")
            return got
        check(type(real) is cls, "view-type", lambda: f"{where}: {type(real)}")
        v = View(t, b, at // size, None if n is None else n // size, ro, real)
    if len(views) < 6:
        views.append(v)
    else:
        views[mis] = v
    return "ok"


def external(b, op):
    how, x = op[2], op[3]
    ref = bytearray(b.ref)

    def change(a):
        if how == "append":
            a.append(x)
        elif how == "extend":
            a.extend(bytes([x]) * (x % 13 + 1))
        elif how == "clear":
            a.clear()
        elif how == "pop":
            a.pop()
        elif how == "insert":
            a.insert(x % 9, x)
        elif how == "cut":
            del a[x % (len(a) + 1) :]
        else:
            a[x % (len(a) or 1)] = x

    try:
        change(ref)
    except IndexError:
        return "empty"
    try:
        change(b.ext)
    except BufferError:
        return "borrowed" if b.borrowed else "unexpected"
    b.ref[:] = ref
    return "ok"


def hold(v, op, holds):
    b = v.buf
    how = op[2]
    if how == "view":
        m = v.real.get_buffer_as_memoryview()
    elif how == "dv":
        if v.bk:
            return "skip"
        m = v.real.get_buffer()
        if v.t == "?":
            m = m.buffer
    elif how == "data" and b.js:
        m = b.real.data
    else:
        m = memoryview(b.real)
    if how in ("view", "dv"):
        _, base, n = v.range()
    else:
        base, n = 0, len(b.visible)
    b.exports += 1

    def get(where=False):
        return base if where else bytes(b.ref[base : base + n])

    holds.append((m, b, get))
    return "ok"


def write(v, op, put, where):
    what = op[0]
    inr, off, n = v.range()
    if what == "fill":
        if v.bk:
            return "ok"
        try:
            with v.real.get_buffer_as_memoryview() as m:
                m[:] = bytes([op[2]]) * n
            got = "ok"
        except TypeError:
            got = "readonly"
        want = "ok" if v.writable else "readonly"
        check(got == want, "write", lambda: f"{where}: {got} expected {want}")
        if got == "ok":
            put(v, 0, bytes([op[2]]) * n)
        return got
    if what == "dv":
        if v.t != "?":
            return "ok"
        _, _, name, at, value, little, store = op
        f = ("<" if little else ">") + DV[name]
        size = struct.calcsize(f)
        args = [] if DV[name] in "bB" else [little]
        value = value_of(value)
        fits = 0 <= at <= n - size
        if not store:
            try:
                with v.real.get_buffer() as d:
                    x = getattr(d, "get_" + name)(at, *args)
                got = "ok"
            except B.BoundsJSArrayBufferError as e:
                got = "bounds"
                check((e.byte_offset, e.byte_length, e.buffer_byte_length) == (at, size, n), "error-details", where)
            check(got == ("ok" if fits else "bounds"), "read", lambda: f"{where}: {name} at {at} of {n}: {got}")
            if fits:
                y = struct.unpack(f, v.bytes()[at : at + size])[0]
                check(type(x) is type(y) and (x == y or x != x and y != y), "read",
                      lambda: f"{where}: {name} at {at} little={little}: {x} expected {y}")
            return got
        try:
            data = struct.pack(f, value)
        except (struct.error, OverflowError):
            data = None
        want = "bounds" if not fits else "readonly" if not v.writable else "value" if data is None else "ok"
        try:
            with v.real.get_buffer() as d:
                getattr(d, "set_" + name)(at, value, *args)
            got = "ok"
        except B.BoundsJSArrayBufferError as e:
            got = "bounds"
            check((e.byte_offset, e.byte_length, e.buffer_byte_length) == (at, size, n), "error-details", where)
        except (struct.error, OverflowError):
            got = "value"
        except TypeError:
            got = "readonly"
        ok = got == want or want == "readonly" and data is None and got == "value"
        check(ok, "write", lambda: f"{where}: {name} {value} at {at} of {n}: {got} expected {want}")
        if got == "ok":
            put(v, at, data)
        return got
    if v.t == "?":
        return "ok"
    _, _, at, value, _ = op
    value = value_of(value)
    items = n // v.size
    # the backport for old Pythons accepts any 32-bit float and fails on the way back
    try:
        if (v.t == "f" or v.bk) and value == 1e300:
            value = math.inf  # memoryview rounds as JavaScript does
        data = struct.pack("<" + FMT[v.t], value)
    except (struct.error, OverflowError):
        data = None
    fits = -items <= at < items
    want = "ok" if fits and v.writable and data is not None else "refused"
    try:
        with v.real.get_buffer() as m:
            m[at] = value
        got = "ok"
    except (IndexError, TypeError, ValueError, OverflowError, struct.error):
        got = "refused"
    check(got == want, "write", lambda: f"{where}: {v.t}[{at}] = {value} of {items} items: {got} expected {want}")
    if got == "ok":
        put(v, (at % items) * v.size, data)
        if v.bk:  # copies every item in and out: NaNs may come back with other bits
            real = bytes(v.real.get_buffer_as_memoryview())
            for j in range(0, len(real), 2):
                old = v.bytes()[j : j + 2]
                if real[j : j + 2] != old and all(math.isnan(struct.unpack("<e", x)[0]) for x in (old, real[j : j + 2])):
                    put(v, j, real[j : j + 2])
    return got


def bad_buffer(b, op, where):
    """Construction that must be refused, and must leave nothing behind."""
    src = b.ext if b.ext is not None else bytearray(b.ref)
    how = op[2]
    try:
        if how == 0:
            JSArrayBuffer(src, copy_data=False, max_byte_length=len(src) - 1)
        elif how == 1:
            JSArrayBuffer(src, resizable=True, readonly=True)
        elif how == 2:
            with memoryview(src) as m:
                JSArrayBuffer(m, copy_data=False, resizable=True)
        else:
            JSArrayBuffer(bytes(src), copy_data=False, max_byte_length=len(src) + 8)
    except ValueError:
        return "refused"
    check(False, "construction", f"{where}: {how} accepted")


def wire(op, bufs, views, where, env):
    """The buffers and views survive being sent and received."""
    _, seed, rab, _ = op
    F = G.SerializationFeature
    feats = (F.ResizableArrayBuffers | F.Float16Array) if rab else F.Float16Array
    items = [("b", b) for b in bufs] + [("v", v) for v in views]
    order = list(range(len(items)))
    random.Random(seed).shuffle(order)
    items = [items[j] for j in order]
    data = dumps([x.real for _, x in items], features=feats)
    got = loads(data)
    js = refv8.Reader(data, refv8.RELEASES["13.x"]).read()
    new_bufs, new_views = [], []
    twins: dict = {}
    for j, (k, x) in enumerate(items):
        g = got[j] if isinstance(got, list) else got.array[j]
        p = js.props[j]
        b = x if k == "b" else x.buf
        gb = g if k == "b" else g.backing_buffer
        pb = p if k == "b" else p.buf
        text = f"{where}: item {j} ({k} {b.kind})"
        check(type(gb) is JSArrayBuffer, "wire-buffer", lambda: f"{text}: {short(gb)}")
        tracks = rab and b.resizable
        with gb.data as d:
            check(bytes(d) == b.visible, "wire-bytes", lambda: f"{text}: {short(bytes(d))} expected {short(b.visible)}")
        check(gb.resizable == tracks and gb.max_byte_length == (b.cap if tracks else len(b.visible)), "wire-limits",
              lambda: f"{text}: resizable {gb.resizable} max {gb.max_byte_length}")
        check(pb.kind == "arraybuffer" and pb.data == b.visible and pb.max == (b.cap if tracks else None), "wire-v8", text)
        if b.kind not in ("by", "mv"):
            twin = twins.setdefault(id(b), (gb, pb))
            check(twin[0] is gb, "wire-identity", lambda: f"{text}: the buffer arrived twice")
            check(twin[1] is pb, "wire-identity", lambda: f"{text}: the buffer was sent twice")
        if k == "b":
            if not any(nb.real is gb for nb in new_bufs):
                new_bufs.append(Buf("rs" if tracks else "fix", bytearray(b.visible), gb, cap=gb.max_byte_length,
                                    resizable=tracks))
            continue
        inr, at, n = x.range()
        text = f"{text} view {x.t} {x.off}+{x.length}"
        check(type(g) is cls_for(x.t), "wire-view", lambda: f"{text}: {type(g)}")
        track = tracks and x.length is None and inr
        check((g.byte_offset, g.byte_length, g.is_length_tracking) == (at, n, track), "wire-range",
              lambda: f"{text}: {g.byte_offset}+{g.byte_length} tracking {g.is_length_tracking} expected {at}+{n} {track}")
        with g.get_buffer_as_memoryview() as m:
            check(bytes(m) == x.bytes(), "wire-bytes", lambda: f"{text}: {short(bytes(m))} expected {short(x.bytes())}")
        check(p.kind == "view" and (p.t, p.off, p.len) == (x.t, at, None if track else n), "wire-v8",
              lambda: f"{text}: V8 reads {p.t} {p.off}+{p.len}")
        new_views.append((x.t, gb, at // x.size, None if track else n // x.size, g))
    out = []
    for t, gb, at, n, g in new_views:
        nb = next((b for b in new_bufs if b.real is gb), None)
        if nb is not None:
            out.append(View(t, nb, at, n, None, g))
    env.probe("wire_roundtrips")
    return ("ok" if rab else "norab", new_bufs, out)
