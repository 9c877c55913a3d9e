"""C15: a date is the same instant on every machine it reaches, whatever the zones."""
from __future__ import annotations

import math
import os
import time
from datetime import datetime, timedelta, timezone, tzinfo
from zoneinfo import ZoneInfo

import graphs as G
import mesh as M
from core import Violation, check, short

from v8serialize import Decoder, Encoder, TagReader, default_encode_steps, dumps, loads
from v8serialize.jstypes import JSArray, JSError, JSMap, JSObject

PROP = "C15"
RUNS = {"quick": 24000, "thorough": 900000}
CHUNK = 100
RULE = (
    "scenario = hosts with their own time zones and clocks' zones changing during the run, dates of "
    "every kind (aware, fixed offset, custom zone, naive, subclass) around zone transitions, sent over "
    "a faulty mesh and relayed from host to host, decoded with and without a default time zone; "
    "non-trivial when sender and receiver are in different zones; distinct by trace digest"
)
STATE_MEASURE = "set of (kind of date, sender zone, receiver zone, decoder zone) per delivery"
COMPONENTS = {
    "v8serialize dates": "real",
    "network, disks, hosts, process time zones": "simulated (sim/mesh.py, TZ + tzset)",
    "local time": "real (C library, system zone data)",
}
ASSUMPTIONS = ["the system's zone data and Python's zoneinfo agree (they read the same files)"]

ZONES = ["UTC", "Europe/London", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu",
         "Pacific/Apia", "Pacific/Kiritimati", "America/St_Johns", "Africa/Casablanca", "Europe/Dublin",
         "Asia/Tehran", "Antarctica/Troll", "America/Caracas", "Asia/Pyongyang", "Etc/GMT+12",
         "Asia/Kolkata", "Africa/Monrovia", "Europe/Amsterdam", "America/Sao_Paulo", "Europe/Berlin",
         "Asia/Hong_Kong", "Pacific/Chatham", "Europe/Moscow", "Pacific/Kwajalein",
         "America/Scoresbysund", "Africa/Cairo", "America/Havana", "Asia/Gaza"]
EPOCH = datetime(1970, 1, 1)
US = timedelta(microseconds=1)
KINDS = ["aware", "aware", "fixed", "naive", "naive", "naive", "gap", "custom", "sub", "subnaive", "odd"]
LO, HI = -(2**33), 2**34


class Stamp(datetime):
    """An application's own kind of datetime."""


class Shift(tzinfo):
    """A zone written by an application: changes offset every half year, with folds."""

    def __init__(self, minutes):
        self.m = minutes

    def summer(self, utc):
        return 4 <= utc.month <= 9

    def dst(self, dt):
        on = False
        if dt is not None:
            w = dt.replace(tzinfo=None)
            a = self.summer(w - timedelta(minutes=self.m + 60))
            b = self.summer(w - timedelta(minutes=self.m))
            on = a if a == b else (dt.fold == 0) == a
        return timedelta(minutes=60 if on else 0)

    def utcoffset(self, dt):
        return timedelta(minutes=self.m) + self.dst(dt)

    def fromutc(self, dt):
        utc = dt.replace(tzinfo=None)
        w = utc + timedelta(minutes=self.m + (60 if self.summer(utc) else 0))
        w = w.replace(tzinfo=self)
        if w.replace(tzinfo=None) - w.utcoffset() != utc:
            w = w.replace(fold=1)
        return w

    def tzname(self, dt):
        return f"Shift{self.m}"


_TRANS: dict = {}


def transitions(z):
    """UTC seconds at which the offset of a zone changes, roughly 1900-2050."""
    t = _TRANS.get(z)
    if t is None:
        Z = ZoneInfo(z)

        def off(s):
            return datetime.fromtimestamp(s, Z).utcoffset()
        t = []
        step = 86400 * 20
        s = -2208988800
        prev = off(s)
        while s < 2500000000:
            n = off(s + step)
            if n != prev:
                lo, hi = s, s + step
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if off(mid) == prev:
                        lo = mid
                    else:
                        hi = mid
                t.append(hi)
            prev = n
            s += step
        _TRANS[z] = t = t or [0]
    return t


def instant(r, z):
    """Microseconds since the epoch."""
    c = r.random()
    if c < 0.5:
        s = r.choice(transitions(z)) + int(r.choice([0, -1, 1, r.randrange(-7300, 7300), r.randrange(-90000, 90000)]))
    elif c < 0.8:
        s = r.randrange(LO, HI)
    elif c < 0.9:
        s = r.choice([0, -1, 1, 2**31, -(2**31), 86399, -86400])
    else:
        s = r.randrange(0, 2**31)
    us = r.choice([0, 0, 1000, 999000, 999999, 1, 500, 501, 499, r.randrange(1000) * 1000, r.randrange(10**6),
                   r.randrange(1000) * 1000])
    return s * 10**6 + us


def gen(r, i, tier):
    n = r.randrange(1, 4)
    pool = [r.randrange(len(ZONES)) for _ in range(r.choice([1, 2, 3]))]
    msgs = []
    for _ in range(n):
        dates = []
        for _ in range(r.choice([1, 1, 2, 4, 8])):
            z = r.choice(pool) if r.random() < 0.7 else r.randrange(len(ZONES))
            kind = r.choice(KINDS)
            us = instant(r, ZONES[z])
            if kind in ("aware", "fixed", "custom") and r.random() < 0.08:
                us = r.randrange(-62000000000, 253000000000) * 10**6 + r.randrange(1000) * 1000
            dates.append([kind, z, us, r.randrange(2), r.randrange(5),
                          r.choice([0, 60, -60, 330, -570, 840, -720, 345, r.randrange(-1439, 1440)])])
            if r.random() < 0.2:  # the same wall clock time, or instant, another way
                d = list(r.choice(dates))
                d[0] = r.choice(KINDS)
                d[3] = r.randrange(2)
                dates.append(d)
        msgs.append(dates)
    hosts = r.choice([2, 2, 3, 4])
    s = {
        "msgs": msgs,
        "zones": [r.choice(pool) if r.random() < 0.6 else r.randrange(len(ZONES)) for _ in range(hosts)],
        "changes": [[r.randrange(0, 12), r.randrange(hosts), r.choice(pool) if r.random() < 0.5 else r.randrange(len(ZONES))]
                    for _ in range(r.choice([0, 1, 3, 6]))],
        "dec": [r.choice([-1, -1, r.randrange(len(ZONES)), 1000 + r.randrange(-1439, 1440), 5000 + r.choice([0, 60, -330])])
                for _ in range(hosts)],
        "api": r.randrange(4),
        "hops": r.choice([0, 0, 1, 2, 4]),
        "mesh": M.gen_mesh(r, n),
    }
    s["mesh"]["hosts"] = hosts
    return s


class Hosts:
    def __init__(self, s):
        self.zone = [ZONES[z % len(ZONES)] for z in s["zones"]] or ["UTC", "UTC"]
        self.changes = [c for c in s["changes"] if len(c) == 3]
        self.n = 0
        self.now = None

    def step(self, env):
        """One more event: some host's administrator may change its zone."""
        for at, h, z in self.changes:
            if at == self.n:
                h %= len(self.zone)
                self.zone[h] = ZONES[z % len(ZONES)]
                env.fault("zone_change")
                env.log("zone", h, self.zone[h])
        self.n += 1

    def enter(self, h):
        z = self.zone[h % len(self.zone)]
        if self.now != z:
            os.environ["TZ"] = z
            time.tzset()
            self.now = z
        return ZoneInfo(z)


def tz_of(d):
    """The zone a decoder is set to."""
    if d < 0:
        return None
    if d >= 4000:
        return Shift(d - 5000)
    if d >= 28:
        return timezone(timedelta(minutes=max(-1439, min(1439, d - 1000))))
    return ZoneInfo(ZONES[d % len(ZONES)])


def build(spec):
    kind, z, us, fold, shape, minutes = spec
    Z = ZoneInfo(ZONES[z % len(ZONES)])
    utc = EPOCH + timedelta(microseconds=us)
    if kind == "fixed":
        tz = timezone(timedelta(minutes=max(-1439, min(1439, minutes))))
        return tz.fromutc(utc.replace(tzinfo=tz))
    if kind == "odd":
        tz = timezone(timedelta(minutes=max(-1438, min(1438, minutes)), microseconds=us % 977))
        return tz.fromutc(utc.replace(tzinfo=tz))
    if kind == "custom":
        return utc.replace(tzinfo=Shift(max(-1300, min(1300, minutes))), fold=fold)
    w = Z.fromutc(utc.replace(tzinfo=Z))
    if kind == "gap":  # a wall clock time shifted: perhaps one which does not exist
        w = (w.replace(tzinfo=None) + timedelta(minutes=minutes % 120)).replace(fold=fold)
        return w
    if kind == "aware":
        return w if fold == 0 else w.replace(fold=1)
    if kind == "naive":
        return w.replace(tzinfo=None)
    w = Stamp(w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond, tzinfo=Z, fold=w.fold)
    return w if kind == "sub" else w.replace(tzinfo=None)


def micros(d, local):
    """The instant a datetime denotes on a machine in zone ``local``."""
    if d.tzinfo is None:
        off = datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, tzinfo=local, fold=d.fold).utcoffset()
    else:
        off = d.utcoffset()
    return (d.replace(tzinfo=None) - EPOCH) // US - off // US


def wrap(shape, dates):
    if len(dates) == 1 and shape < 2:
        return dates[0]
    if shape == 0:
        return [*dates]
    if shape == 1:
        return {i: d for i, d in enumerate(dates)}
    if shape == 2:
        return JSObject({f"k{i}": d for i, d in enumerate(dates)})
    if shape == 3:
        v = None
        for d in reversed(dates):
            v = JSError("e", stack=None, cause=[d, v])
        return v
    return tuple([d] for d in dates)


def unwrap(shape, v, n):
    if n == 1 and shape < 2:
        return [v]
    if shape == 0:
        check(type(v) is JSArray, "shape", lambda: short(v))
        return list(v.array)
    if shape == 1:
        check(type(v) is JSMap, "shape", lambda: short(v))
        return list(v.values())
    if shape == 2:
        return list(v.values())
    if shape == 3:
        out = []
        while v is not None:
            check(type(v) is JSError, "shape", lambda: short(v))
            out.append(v.cause[0])
            v = v.cause[1]
        return out
    return [x[0] for x in v.array]


def run(s, env):
    if not s["msgs"]:
        return
    old = os.environ.get("TZ")
    try:
        simulate(s, env)
    finally:
        os.environ["TZ"] = old or "UTC"
        time.tzset()


def simulate(s, env):
    hosts = Hosts(s)
    # a zone of one host is another's: values are built where they are first sent
    msgs = [m for m in s["msgs"] if m]
    if not msgs:
        return
    api = s["api"]
    encs: dict = {}
    decs: dict = {}

    def dec_zone(h):
        return tz_of(s["dec"][h % len(s["dec"])]) if s["dec"] else None

    def encode(h, v):
        if api % 2 == 0:
            return dumps(v)
        e = encs.get(h)
        if e is None:
            e = encs[h] = Encoder(encode_steps=default_encode_steps)
        return bytes(e.encode(v))

    def decode(h, data, buf):
        """A host's decoder lives on while its zone changes."""
        tz = dec_zone(h)
        if api // 2 == 0 and buf.fp is None:
            return tz, loads(buf.obj, default_timezone=tz) if tz is not None else loads(buf.obj)
        d = decs.get(h)
        if d is None:
            d = decs[h] = (tz, Decoder([TagReader(default_timezone=tz)]))
        return d[0], M.decode_buf(d[1], buf)

    values = []  # [(wrapped, dates)]
    for m in msgs:
        dates = [build(x) for x in m]
        values.append((wrap(m[0][4] % 5, dates), dates, m[0][4] % 5))
    want: dict = {}
    how: dict = {}
    current: dict = {}

    def expect(h, i):
        local = ZoneInfo(hosts.zone[h % len(hosts.zone)])
        return [micros(d, local) for d in values[i][1]]

    def enc(i):
        hosts.step(env)
        h = mesh.src[i]
        hosts.enter(h)
        env.calls += 1
        data = encode(h, values[i][0])
        want[i, data] = expect(h, i)
        current[i] = hosts.zone[h % len(hosts.zone)]
        return data

    def verify(got, exact, expected, tz, local, where):
        check(len(got) == len(expected), "shape", lambda: f"{where}: {len(got)} dates instead of {len(expected)}")
        for k, (d, us) in enumerate(zip(got, expected)):
            w = f"{where} date {k}"
            check(isinstance(d, datetime), "type", lambda: f"{w}: {short(d)}")
            if tz is None:
                check(d.tzinfo is None, "zone", lambda: f"{w}: {d!r} has a zone, but none is configured")
            else:
                check(d.tzinfo is not None and d.tzinfo == tz, "zone", lambda: f"{w}: {d!r} is not in {tz!r}")
            have = micros(d, local)
            diff = abs(have - us)
            # the wire carries milliseconds as a double: what that loses, and no more
            lost = int(math.ulp(us / 1000) * 1000 + 0.5) if us % 1000 else 0
            check(diff <= (lost if exact[k] else 999), "instant",
                  lambda: f"{w}: {d!r} fold={d.fold} is {have - us:+} us from what was sent "
                  f"({EPOCH + timedelta(microseconds=us)} UTC)")
            # the wall clock shown there at that instant, the second time if it is
            ref = EPOCH + timedelta(microseconds=have)
            z = local if tz is None else tz
            ref = z.fromutc(ref.replace(tzinfo=z))
            same = (ref.replace(tzinfo=None, fold=0) == d.replace(tzinfo=None, fold=0)
                    and ref.fold == d.fold)
            check(same, "wall-clock", lambda: f"{w}: {d!r} fold={d.fold} instead of {ref!r} fold={ref.fold}")

    def deliver(i, data, buf):
        hosts.step(env)
        h = mesh.dst[i]
        local = hosts.enter(h)
        env.calls += 1
        tz, v = decode(h, data, buf)
        dates = values[i][1]
        # offsets of part of a second (and equal dates, which may share one) are only close
        whole = all(d.tzinfo is None or not d.utcoffset() % timedelta(seconds=1) for d in dates)
        exact = [whole] * len(dates)
        expected = want[i, data]
        got = unwrap(values[i][2], v, len(dates))
        verify(got, exact, expected, tz, local, f"msg {i} to host {h}")
        env.log("dates", i, h, str(local), [micros(d, local) for d in got])
        if str(local) != current[i]:
            env.nontrivial = True
        env.state(sorted({x[0] for x in msgs[i]}), current[i], str(local), str(tz))
        # and on to other hosts, which decode what this one got
        for k in range(s["hops"]):
            hosts.enter(h)
            expected = [micros(d, local) for d in got]
            again = bytes(encode(h, v))
            h = (h + 1 + k % 2) % mesh.hosts
            hosts.step(env)
            local = hosts.enter(h)
            env.calls += 2
            tz, v = decode(h, again, M.Buf("bytes", again, None))
            got = unwrap(values[i][2], v, len(dates))
            env.probe("relayed")
            verify(got, [True] * len(got), expected, tz, local, f"msg {i} relayed to host {h}")

    mesh = M.Mesh(s["mesh"], len(msgs), enc, deliver, env)
    mesh.run()
