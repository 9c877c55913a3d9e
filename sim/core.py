"""Simulation core: environments, seeded scenarios, workers, shrinking, replay.

Every simulated run is a pure function ``run(scenario, env)``:

* ``scenario`` is plain JSON, produced by the property's ``gen(rng, i, tier)``
  from a PRNG seeded with (VERIF_SEED, property, index).  Nothing else is random.
* ``env`` is the run's environment: the event trace (hashed), the fault ledger,
  the probes (distinct states / interleavings) and the simulated clock.

A run signals a broken property by raising ``Violation``.  Any other exception
whose innermost frame is inside the library under test is a violation too (kind
``unexpected-exception``) unless the property handles it; an exception out of
the harness is a harness error and never reported as a violation.
"""
from __future__ import annotations

import gc
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.environ.get("SIM_VERIF") or os.path.dirname(
    os.path.dirname(os.path.abspath(__file__))
)
REPO = os.environ.get("SIM_REPO", "/repo")
LIBDIR = os.path.join(REPO, "src", "v8serialize") + os.sep

CHUNK = 25
RUN_CPU_S = 20.0
RUN_WALL_S = 60.0
MEM_BYTES = 3 << 30


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind: str, detail: str = "") -> None:
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


class RunTimeout(BaseException):
    pass


class Env:
    """What a simulated run may touch besides its scenario."""

    def __init__(self, record: bool = False) -> None:
        self._h = hashlib.blake2b(digest_size=16)
        self.n_events = 0
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.states: set[str] = set()
        self.sim_ms = 0
        self.record = record
        self.trace: list[str] = []
        self.nontrivial = False
        self.calls = 0

    def log(self, *event: object) -> None:
        s = "|".join(str(e) for e in event)
        self._h.update(s.encode("utf-8", "backslashreplace"))
        self._h.update(b"\n")
        self.n_events += 1
        if self.record and len(self.trace) < 4000:
            self.trace.append(s if len(s) < 300 else s[:297] + "...")

    def fault(self, kind: str) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial = True
        self.log("fault", kind)

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts: object) -> None:
        if len(self.states) < 64:
            self.states.add(
                hashlib.blake2b(
                    repr(parts).encode("utf-8", "backslashreplace"), digest_size=8
                ).hexdigest()
            )

    def advance(self, ms: int) -> None:
        self.sim_ms += ms

    @property
    def digest(self) -> str:
        return self._h.hexdigest()


def check(cond: object, kind: str, detail: object = "") -> None:
    if not cond:
        raise Violation(kind, detail() if callable(detail) else str(detail))


def rng_for(seed: int, prop: str, index: int) -> random.Random:
    h = hashlib.blake2b(f"{seed}/{prop}/{index}".encode(), digest_size=16).digest()
    return random.Random(int.from_bytes(h, "big"))


def short(o: object, n: int = 300) -> str:
    """repr that cannot fail, recurse for ever, or use the code under test much."""
    try:
        s = repr(o)
    except BaseException as e:  # noqa: BLE001
        s = f"<{type(o).__name__} unprintable: {type(e).__name__}>"
    return s if len(s) <= n else s[: n - 3] + "..."


def innermost_in_lib(exc: BaseException) -> bool:
    """Whether exc was raised by (or below) library code called by the harness."""
    tb = exc.__traceback__
    last_sim = last_lib = -1
    i = 0
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(LIBDIR):
            last_lib = i
        elif fn.startswith(VERIF):
            last_sim = i
        i += 1
        tb = tb.tb_next
    return last_lib > last_sim


def exc_site(exc: BaseException) -> str:
    """Where in the library it was raised: function names, no line numbers."""
    tb = exc.__traceback__
    names = []
    while tb is not None:
        co = tb.tb_frame.f_code
        if co.co_filename.startswith(LIBDIR):
            names.append(co.co_name)
        tb = tb.tb_next
    return names[-1] if names else "?"


# ---------------------------------------------------------------------------
# running one scenario


def run_one(mod, scenario, record: bool = False):
    """Run in this process.  Returns (env, violation|None, harness_error|None)."""
    env = Env(record)
    viol = herr = None
    old = signal.getsignal(signal.SIGVTALRM)

    def on_alarm(signum, frame):
        raise RunTimeout()

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S)
    try:
        mod.run(scenario, env)
    except Violation as v:
        viol = {"kind": v.kind, "detail": v.detail[:2000]}
    except RunTimeout:
        viol = {"kind": "nontermination", "detail": f"> {RUN_CPU_S}s of CPU in one run"}
    except BaseException as e:  # noqa: BLE001
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if innermost_in_lib(e) and not isinstance(e, HarnessError):
            viol = {
                "kind": f"unexpected-exception:{type(e).__name__}",
                "detail": f"{exc_site(e)}: {str(e)[:500]}",
            }
            if record or os.environ.get("SIM_DEBUG"):
                viol["traceback"] = "".join(traceback.format_exception(e))[-4000:]
        else:
            herr = "".join(traceback.format_exception(e))[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return env, viol, herr


def _child_setup() -> None:
    gc.disable()
    gc.freeze()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(1000)


class Child:
    """A forked worker running a list of (index, scenario-or-None)."""

    def __init__(self, mod, items, seed, tier, record=False):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                _child_setup()
                out = os.fdopen(w, "w")
                for index, scenario in items:
                    out.write(json.dumps({"start": index}) + "\n")
                    out.flush()
                    if scenario is None:
                        scenario = mod.gen(rng_for(seed, mod.PROP, index), index, tier)
                        # exactly what a replay file would hold
                        scenario = json.loads(json.dumps(scenario))
                    env, viol, herr = run_one(mod, scenario, record)
                    res = {
                        "done": index,
                        "digest": env.digest,
                        "events": env.n_events,
                        "faults": env.faults,
                        "probes": env.probes,
                        "states": sorted(env.states),
                        "sim_ms": env.sim_ms,
                        "nontrivial": bool(env.nontrivial),
                        "calls": env.calls,
                    }
                    if viol is not None:
                        res["violation"] = viol
                        res["scenario"] = scenario
                    if herr is not None:
                        res["harness_error"] = herr
                        res["scenario"] = scenario
                    if record:
                        res["trace"] = env.trace
                    out.write(json.dumps(res) + "\n")
                    out.flush()
                    gc.collect()
                out.flush()
            except BaseException:  # noqa: BLE001
                code = 3
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        self.pid = pid
        self.fd = r
        self.buf = b""
        self.current = None
        self.last = time.monotonic()
        self.items = items
        self.results = []
        self.eof = False
        self.killed = False

    def pump(self) -> None:
        data = os.read(self.fd, 1 << 16)
        if not data:
            self.eof = True
            os.close(self.fd)
            _, status = os.waitpid(self.pid, 0)
            self.status = status
            return
        self.last = time.monotonic()
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        for ln in lines:
            d = json.loads(ln)
            if "start" in d:
                self.current = d["start"]
            else:
                self.current = None
                self.results.append(d)

    def check_stall(self) -> None:
        if time.monotonic() - self.last > RUN_WALL_S and not self.killed:
            self.killed = True
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

    def finish(self) -> None:
        """After eof: account for a run that took the process down."""
        if self.current is not None:
            kind = "hang" if self.killed else "process-crash"
            self.results.append(
                {
                    "done": self.current,
                    "violation": {
                        "kind": kind,
                        "detail": f"worker ended with status {self.status}",
                    },
                    "scenario": None,
                    "digest": "",
                    "events": 0,
                    "faults": {},
                    "probes": {},
                    "states": [],
                    "sim_ms": 0,
                    "nontrivial": True,
                    "calls": 0,
                }
            )


def run_child(mod, items, seed, tier, record=False):
    """Run items in one fresh child, wait for it, return its results."""
    c = Child(mod, items, seed, tier, record)
    while not c.eof:
        r, _, _ = select.select([c.fd], [], [], 1.0)
        if r:
            c.pump()
        c.check_stall()
    c.finish()
    return c.results


def run_campaign(mod, seed, tier, total, jobs, on_result, budget_s=None):
    """Run scenarios 0..total-1 in chunks over forked workers."""
    chunk = getattr(mod, "CHUNK", CHUNK)
    chunks = [list(range(s, min(s + chunk, total))) for s in range(0, total, chunk)]
    t0 = time.monotonic()
    live: list[Child] = []
    nxt = 0
    stop = False
    while live or (nxt < len(chunks) and not stop):
        while (
            len(live) < jobs
            and nxt < len(chunks)
            and not stop
            and not (budget_s and time.monotonic() - t0 > budget_s)
        ):
            live.append(Child(mod, [(i, None) for i in chunks[nxt]], seed, tier))
            nxt += 1
        if not live:
            break
        r, _, _ = select.select([c.fd for c in live], [], [], 1.0)
        for c in list(live):
            if c.fd in r:
                c.pump()
            if c.eof:
                live.remove(c)
                c.finish()
                for res in c.results:
                    if on_result(res, c.items):
                        stop = True
            else:
                c.check_stall()


# ---------------------------------------------------------------------------
# shrinking


def _sub(scn, path, value):
    if not path:
        return value
    k, rest = path[0], path[1:]
    if isinstance(scn, list):
        c = list(scn)
    else:
        c = dict(scn)
    c[k] = _sub(scn[k], rest, value)
    return c


def _walk(scn, path=()):
    yield path, scn
    if isinstance(scn, dict):
        for k in scn:
            yield from _walk(scn[k], path + (k,))
    elif isinstance(scn, list):
        for i, v in enumerate(scn):
            yield from _walk(v, path + (i,))


def _weight(scn) -> int:
    return sum(
        (abs(v) if isinstance(v, int) and abs(v) < 10**6 else 7) + 5
        if not isinstance(v, (list, dict, str))
        else (3 + len(v))
        for _, v in _walk(scn)
    )


def candidates(scn):
    """Simpler scenarios, biggest cuts first."""
    nodes = list(_walk(scn))
    lists = [(p, v) for p, v in nodes if isinstance(v, list) and v]
    lists.sort(key=lambda pv: -len(json.dumps(pv[1])))
    for p, v in lists:
        n = len(v)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                yield _sub(scn, p, v[:s] + v[s + size :])
            size //= 2
    for p, v in nodes:
        if isinstance(v, bool):
            if v:
                yield _sub(scn, p, False)
        elif isinstance(v, int):
            for c in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
                if c != v and abs(c) <= abs(v):
                    yield _sub(scn, p, c)
        elif isinstance(v, str) and len(v) > 1 and p and p[-1] != 0:
            yield _sub(scn, p, v[: len(v) // 2])
            yield _sub(scn, p, v[1:])
        elif isinstance(v, str) and len(v) == 1 and v != "a" and p and p[-1] != 0:
            yield _sub(scn, p, "a")
        elif isinstance(v, dict):
            opt = [k for k in v if k.startswith("?")]
            for k in opt:
                yield _sub(scn, p, {a: b for a, b in v.items() if a != k})


def shrink(mod, scn, kind, seed, tier, budget_s=45.0, jobs=8):
    """Greedy: keep any simpler scenario which fails with the same kind."""
    t_end = time.monotonic() + budget_s
    best = scn
    improved = True
    tried = set()
    trials = 0
    while improved and time.monotonic() < t_end:
        improved = False
        gen = candidates(best)
        while time.monotonic() < t_end:
            batch = []
            for c in gen:
                key = hashlib.blake2b(
                    json.dumps(c, sort_keys=True).encode(), digest_size=12
                ).digest()
                if key in tried:
                    continue
                tried.add(key)
                batch.append(c)
                if len(batch) >= 8 * jobs:
                    break
            if not batch:
                break
            # several candidates per child, children side by side
            kids = []
            for j in range(jobs):
                part = [(k, batch[k]) for k in range(j, len(batch), jobs)]
                if part:
                    kids.append(Child(mod, part, seed, tier))
            ok = {}
            while any(not k.eof for k in kids):
                fds = [k.fd for k in kids if not k.eof]
                r, _, _ = select.select(fds, [], [], 1.0)
                for k in kids:
                    if not k.eof and k.fd in r:
                        k.pump()
                    if not k.eof:
                        k.check_stall()
            for k in kids:
                k.finish()
                for res in k.results:
                    trials += 1
                    v = res.get("violation")
                    if v and v["kind"] == kind:
                        ok[res["done"]] = True
            good = [batch[i] for i in ok if _weight(batch[i]) < _weight(best)]
            good.sort(key=_weight)
            accepted = False
            for g in good[:4]:
                # must fail alone in a fresh process
                rr = run_child(mod, [(0, g)], seed, tier)
                if rr and rr[0].get("violation", {}).get("kind") == kind:
                    best = g
                    accepted = True
                    break
            if accepted:
                improved = True
                break
    return best, trials


def configure(cls, steps, how: int, **kw):
    """An Encoder or Decoder whose steps were given in one of the ways an iterable can be."""
    name = "encode_steps" if cls.__name__ == "Encoder" else "decode_steps"
    how %= 4
    if how == 0:
        return cls(**{name: tuple(steps)}, **kw)
    if how == 1:
        return cls(**{name: iter(steps)}, **kw)
    if how == 2:
        return cls(**{name: (x for x in steps)}, **kw)
    mine = list(steps)
    out = cls(**{name: mine}, **kw)
    mine.clear()  # the caller's list is the caller's
    return out
