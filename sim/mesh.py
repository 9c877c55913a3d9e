"""A simulated message mesh: senders, receivers, lossy links, crashing hosts.

Discrete-event simulation.  Every decision (loss, duplication, reordering,
delay, fragment sizes, crash times, torn writes, in which kind of buffer the
bytes reach the decoder) is drawn from one PRNG seeded by the scenario, so a
scenario is one execution.  The transport is a stub; what runs for real is the
library at both ends: ``encode(i)`` is called whenever a sender host (re)builds
message i, ``deliver(i, buf)`` whenever a receiver hands complete bytes to the
decoder.
"""
from __future__ import annotations

import array
import ctypes
import heapq
import io
import mmap
import os
import random
import zlib

from core import Violation


class Buf:
    """Bytes in the form some transport would hand over, plus its life after."""

    KINDS = ["bytes", "bytearray", "mv_bytes", "mv_bytearray", "mv_window", "array", "ctypes",
             "mmap", "fp_bytesio", "fp_short_raw", "fp_bytearray", "fp_mv", "mv_reversed", "bytes_sub",
             "fp_positioned", "fp_file", "fp_rawfile", "fp_sized", "fp_sized"]
    # a log of messages: others before this one and others after it
    LOGS = ["log_bytes", "log_bytesio", "log_file"]

    def __init__(self, kind: str, data: bytes, r: random.Random) -> None:
        self.kind = kind
        self.backing = None
        self.owner = None
        self.fp = None
        if kind == "bytes":
            self.obj = bytes(data)
        elif kind == "bytes_sub":
            self.obj = BytesSub(data)
        elif kind == "bytearray":
            self.obj = self.backing = bytearray(data)
        elif kind == "mv_bytes":
            self.obj = memoryview(bytes(data))
        elif kind == "mv_bytearray":
            self.backing = bytearray(data)
            self.obj = memoryview(self.backing)
        elif kind == "mv_window":
            # a slot of a larger receive ring, at any alignment
            pre, post = r.randrange(0, 9), r.randrange(0, 9)
            self.backing = bytearray(r.randbytes(pre) + data + r.randbytes(post))
            self.obj = memoryview(self.backing)[pre : pre + len(data)]
        elif kind == "mv_reversed":
            # non-contiguous: every other byte of an interleaved buffer
            inter = bytearray(2 * len(data))
            inter[::2] = data
            self.backing = inter
            self.obj = memoryview(bytes(data)).toreadonly()
        elif kind == "array":
            self.obj = self.backing = array.array("B", data)
        elif kind == "ctypes":
            self.obj = self.backing = (ctypes.c_ubyte * len(data)).from_buffer_copy(data)
        elif kind == "mmap":
            m = mmap.mmap(-1, max(1, len(data)))
            m[: len(data)] = data
            self.obj = self.owner = m
            if len(data) == 0:
                self.obj = b""
        elif kind == "fp_bytesio":
            self.fp = io.BytesIO(data)
        elif kind == "fp_short_raw":
            self.fp = io.BufferedReader(DribbleRaw(data, random.Random(r.getrandbits(32))))
        elif kind == "fp_bytearray":
            self.fp = OneRead(bytearray(data))
        elif kind == "fp_mv":
            self.fp = OneRead(memoryview(data))
        elif kind == "fp_sized":
            self.fp = SizedRead(data, random.Random(r.getrandbits(32)))
        elif kind in ("fp_positioned", "fp_file", "fp_rawfile"):
            # an earlier message was already read from the same file
            pre = NEXT if r.random() < 0.5 else r.randbytes(r.randrange(9))
            if kind == "fp_positioned":
                self.fp = io.BytesIO(pre + data)
                self.fp.seek(len(pre))
            else:
                self.fp = real_file(pre + data, len(pre), r.random() < 0.5,
                                    0 if kind == "fp_rawfile" else -1)
        elif kind == "log_bytes":
            self.obj = data + NEXT * r.randrange(1, 3)
        elif kind == "log_bytesio":
            self.fp = io.BytesIO(NEXT + data + NEXT)
            self.fp.seek(len(NEXT))
        elif kind == "log_file":
            self.fp = real_file(NEXT + data + NEXT, len(NEXT), r.random() < 0.5, -1)
        else:
            raise AssertionError(kind)

    def scribble(self, r: random.Random) -> bool:
        """Recycle the receive buffer: overwrite what is writable."""
        if self.kind == "mmap":
            if self.owner is not None and self.obj is self.owner:
                self.owner[:] = r.randbytes(len(self.owner))
            return True
        b = self.backing
        if self.fp is not None and isinstance(getattr(self.fp, "last", None), bytearray):
            b = self.fp.last
        if b is None:
            return False
        for i in range(len(b)):
            b[i] = r.randrange(256)
        return True


NEXT = b'\xff\x0fo"\x04nextA\x02I\x02I\x04$\0\x02{\x01'  # some other message


def real_file(data: bytes, pos: int, reading: bool, buffering: int):
    """A real file (kept in memory), positioned where the message starts."""
    fd = os.memfd_create("sim")
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view) :]
    os.lseek(fd, 0, os.SEEK_SET)
    fp = os.fdopen(fd, "rb", buffering)
    if reading:
        while pos:
            pos -= len(fp.read(pos))
    else:
        fp.seek(pos)
    return fp


class BytesSub(bytes):
    pass


class OneRead:
    def __init__(self, v):
        self.v = v
        self.last = None

    def read(self, n=-1):
        v, self.v = self.v, b""
        self.last = v
        return v


class SizedRead:
    """A stream that hands out all it has, but fewer bytes than asked for by size.

    As sockets, pipes and decompressors do; no bytes means that it ended.
    """

    def __init__(self, data, r):
        self.data = data
        self.r = r

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        elif n and self.data:
            n = self.r.choice([1, 2, n // 2 or 1, n])
        v, self.data = self.data[:n], self.data[n:]
        return v


class DribbleRaw(io.RawIOBase):
    """A raw stream returning a few bytes at a time."""

    def __init__(self, data, r):
        self.data = data
        self.pos = 0
        self.r = r

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos, self.r.choice([1, 2, 3, 7, 64]))
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


def decode_buf(decoder, buf: Buf):
    if buf.fp is not None:
        return decoder.decode(buf.fp)
    return decoder.decodes(buf.obj)


def gen_mesh(r: random.Random, n: int) -> dict:
    calm = r.random() < 0.15
    return {
        "seed": r.getrandbits(32),
        "hosts": r.choice([2, 2, 3, 4]),
        "loss": 0 if calm else r.choice([0, 10, 30, 60]),
        "dup": 0 if calm else r.choice([0, 10, 40]),
        "delay": r.choice([1, 10, 200]),
        "frag": r.choice([1, 4, 16, 64, 1000]),
        "crashes": 0 if calm else r.choice([0, 0, 1, 2, 4]),
        "torn": 0 if calm else r.choice([0, 20, 50]),
        "diskfull": 0 if calm else r.choice([0, 0, 20]),
        "partition": 0 if calm else r.choice([0, 0, 1]),
    }


class Mesh:
    """Runs until every message was delivered; faults stop at ``horizon``."""

    def __init__(self, plan, n, encode, deliver, env, max_steps=40000):
        self.p = plan
        self.r = random.Random(plan["seed"])
        self.n = n
        self.encode = encode
        self.deliver = deliver
        self.env = env
        self.q: list = []
        self.seq = 0
        self.now = 0
        self.horizon = 2000
        self.max_steps = max_steps
        h = max(2, plan["hosts"])
        self.src = [self.r.randrange(h) for _ in range(n)]
        self.dst = [(s + 1 + self.r.randrange(h - 1)) % h for s in self.src]
        self.hosts = h
        self.outbox: list[dict] = [{} for _ in range(h)]  # durable: id -> record
        self.inbox: list[dict] = [{} for _ in range(h)]  # durable
        self.part: list[dict] = [{} for _ in range(h)]  # volatile reassembly
        self.acked: set[int] = set()
        self.delivered: dict[int, int] = {}
        self.up = [True] * h
        self.cut: set = set()
        self.attempt: dict[int, int] = {}

    def at(self, dt, *ev):
        self.seq += 1
        heapq.heappush(self.q, (self.now + dt, self.seq, ev))

    def faulty(self) -> bool:
        return self.now < self.horizon

    def chance(self, pct) -> bool:
        return self.r.randrange(100) < pct and self.faulty()

    def run(self) -> None:
        r, p = self.r, self.p
        for i in range(self.n):
            self.at(r.randrange(0, 200), "produce", i)
        for _ in range(p["crashes"]):
            self.at(r.randrange(1, 1500), "crash", r.randrange(self.hosts))
        if p["partition"]:
            t = r.randrange(1, 1000)
            a = r.randrange(self.hosts)
            self.at(t, "partition", a)
            self.at(t + r.randrange(10, 800), "heal", a)
        steps = 0
        while self.q and len(self.delivered) < self.n:
            steps += 1
            if steps > self.max_steps:
                raise AssertionError("mesh did not converge")  # harness bug
            t, _, ev = heapq.heappop(self.q)
            self.env.advance(t - self.now)
            self.now = t
            getattr(self, "ev_" + ev[0])(*ev[1:])
        # a restarted receiver re-reads its durable inbox
        for h in range(self.hosts):
            for i, data in sorted(self.inbox[h].items()):
                if r.random() < 0.5:
                    self.hand_over(i, data, "reread")
        self.env.probe("mesh_steps", steps)

    # -- storage: one record per message, checksummed; a torn record is detected

    def ev_produce(self, i) -> None:
        h = self.src[i]
        if i in self.acked:
            return
        if not self.up[h]:
            self.at(50, "produce", i)
            return
        rec = self.outbox[h].get(i)
        if rec is None or rec[0] != zlib.crc32(rec[1]) or len(rec[1]) != rec[2]:
            data = bytes(self.encode(i))
            self.env.log("encoded", i, len(data), zlib.crc32(data))
            stored = data
            if self.chance(self.p["diskfull"]):
                self.env.fault("disk_full")
                self.at(40, "produce", i)
                return
            if self.chance(self.p["torn"]):
                self.env.fault("torn_write")
                stored = data[: self.r.randrange(len(data) + 1)]
            self.outbox[h][i] = rec = (zlib.crc32(data), stored, len(data))
            if stored is not data:
                # the host died mid-write; it finds the torn record on restart
                self.at(0, "crash", h)
                self.at(60, "produce", i)
                return
        self.transmit(i, rec[1])
        k = self.attempt[i] = self.attempt.get(i, 0) + 1
        self.at(120 + 60 * min(k, 5), "produce", i)

    def transmit(self, i, data) -> None:
        r, p = self.r, self.p
        frag = max(1, p["frag"], len(data) // 40)
        frags = []
        pos = 0
        while pos < len(data):
            n = r.randrange(1, frag + 1)
            frags.append((pos, data[pos : pos + n]))
            pos += n
        for pos, chunk in frags:
            if self.chance(p["loss"]):
                self.env.fault("loss")
                continue
            copies = 1
            if self.chance(p["dup"]):
                self.env.fault("duplicate")
                copies = 2
            for _ in range(copies):
                d = r.randrange(1, p["delay"] + 2)
                if d > 50:
                    self.env.probe("delayed_fragments")
                self.at(d, "arrive", i, pos, chunk, len(data), zlib.crc32(data))

    def ev_arrive(self, i, pos, chunk, total, crc) -> None:
        h = self.dst[i]
        if not self.up[h]:
            return
        if (self.src[i], h) in self.cut or (h, self.src[i]) in self.cut:
            self.env.fault("partition_drop")
            return
        if i in self.inbox[h]:
            if i not in self.acked:
                self.at(1, "ack", i)
            return
        st = self.part[h].setdefault(i, (bytearray(total), set()))
        buf, got = st
        if pos < max((x for x in got), default=-1):
            self.env.probe("reordered_fragments")
        buf[pos : pos + len(chunk)] = chunk
        got.update(range(pos, pos + len(chunk)))
        if len(got) == total:
            if zlib.crc32(buf) != crc:
                raise AssertionError("transport corrupted data")  # harness bug
            data = bytes(buf)
            self.inbox[h][i] = data
            del self.part[h][i]
            self.hand_over(i, data, "fresh")
            self.at(1, "ack", i)

    def ev_ack(self, i) -> None:
        if self.chance(self.p["loss"]):
            self.env.fault("loss")
            return
        self.acked.add(i)

    def hand_over(self, i, data, how) -> None:
        kind = self.r.choice(Buf.KINDS + Buf.LOGS)
        self.env.log("deliver", i, how, kind)
        self.env.probe("buf_" + kind)
        if how == "reread":
            self.env.probe("reread_from_inbox")
        self.delivered[i] = self.delivered.get(i, 0) + 1
        self.deliver(i, data, Buf(kind, data, self.r))

    def ev_crash(self, h) -> None:
        if not self.up[h] or not self.faulty():
            return
        self.env.fault("crash_restart")
        self.up[h] = False
        self.part[h].clear()
        self.at(self.r.randrange(5, 200), "restart", h)

    def ev_restart(self, h) -> None:
        self.up[h] = True
        self.env.log("restart", h)

    def ev_partition(self, a) -> None:
        self.env.fault("partition")
        for b in range(self.hosts):
            self.cut.add((a, b))

    def ev_heal(self, a) -> None:
        self.cut = {c for c in self.cut if c[0] != a}
        self.env.log("heal", a)
