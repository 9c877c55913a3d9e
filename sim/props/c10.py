"""C10: print settings blocks opened and closed by several actors in any order."""
from __future__ import annotations

import threading
import warnings

from core import Violation, check, short

from v8serialize.jstypes import (
    JSArray, JSMap, JSObject, JSRepr, JSReprSettingsNotRestored, JSSet, js_repr_settings,
)

PROP = "C10"
RUNS = {"quick": 12000, "thorough": 200000}
CHUNK = 200
RULE = (
    "scenario = 1-4 actors (some in threads of their own), each a seeded program of nested settings "
    "blocks made from keywords, ready JSRepr objects, decorators or blocks created before they are "
    "entered, with bodies that print, fail, refuse bad settings; a seeded schedule advances, throws "
    "into, or closes actors in any order; non-trivial when blocks overlap or one fails; distinct by "
    "trace digest"
)
STATE_MEASURE = "open blocks per actor x event kind x whether restored"
COMPONENTS = {
    "v8serialize js_repr_settings, JSRepr, repr of jstypes": "real",
    "actor scheduling": "simulated (generators advanced by the seeded schedule)",
    "warnings filter": "simulated (recording, or turning warnings into errors)",
}
ASSUMPTIONS = [
    "actors switch only at their own steps, not in the middle of opening or closing a block",
]

FIELDS = ["maxjsobject", "maxjsarray", "maxlevel", "maxdict", "maxset", "maxstring", "maxlist",
          "maxtuple", "fillvalue", "indent"]


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def gen_kw(r):
    kw = {}
    for _ in range(r.randrange(0, 4)):
        f = r.choice(FIELDS)
        if r.random() < 0.12:
            kw[f] = None
        elif f == "fillvalue":
            kw[f] = r.choice(["...", "~", "<more>", "etc"])
        elif f == "indent":
            kw[f] = r.choice([0, 1, 4])
        elif f == "maxlevel":
            kw[f] = r.choice([1, 2, 3, 6])
        elif f == "maxstring":
            kw[f] = r.choice([8, 13, 40])
        else:
            kw[f] = r.randrange(0, 8)
    return kw


def gen_ops(r, depth):
    ops = []
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if k < 0.55 and depth < 4:
            mode = r.choice(["kw", "kw", "kw", "obj", "late", "deco", "pool"])
            ops.append(["open", mode, gen_kw(r), int(r.random() < 0.25), r.randrange(3),
                        gen_ops(r, depth + 1), r.choice(["ok", "ok", "ok", "raise", "base"])])
        elif k < 0.62:
            ops.append(["bad"])
        elif k < 0.8:
            ops.append(["print"])
        else:
            ops.append(["step"])
    return ops


def gen(r, i, tier):
    na = r.choice([1, 2, 2, 3, 4])
    return {
        "actors": [[int(r.random() < 0.3), gen_ops(r, 0)] for _ in range(na)],
        "sched": [[r.randrange(na), r.choice("nnnnnnnnnntc")] for _ in range(r.randrange(2, 40))],
        "err": int(r.random() < 0.2),
        "base": gen_kw(r),
    }


PROBES = [
    JSArray(range(9)),
    JSObject({f"k{i}": i for i in range(9)}),
    JSArray([JSArray([JSArray([JSArray([1])])])]),
    JSMap({i: "x" * 30 for i in range(9)}),
    JSSet(range(9)),
    JSObject({3: [1] * 9, "t": (1,) * 9, "d": {i: i for i in range(9)}}),
]


def render(settings):
    """What the settings should print, from a fresh JSRepr holding them."""
    key = tuple(settings.items())
    if key not in _rendered:
        r = JSRepr(**settings)
        _rendered[key] = [r.repr(p) for p in PROBES]
    return _rendered[key]


_rendered: dict = {}


def plain(settings):
    """The first two probes, spelled out independently (unindented)."""
    f = settings["fillvalue"]

    def pieces(items, most):
        out = items[:most]
        return out + [f] if len(items) > most else out

    deep = settings["maxlevel"] >= 2
    a = [str(i) if deep else f for i in range(9)]
    o = [f"k{i}={i}" if deep else f"k{i}={f}" for i in range(9)]
    return ["JSArray([" + ", ".join(pieces(a, settings["maxjsarray"])) + "])",
            "JSObject(" + ", ".join(pieces(o, settings["maxjsobject"])) + ")"]


ALL = ["maxjsobject", "maxjsarray", "maxlevel", "maxtuple", "maxlist", "maxarray", "maxdict", "maxset",
       "maxfrozenset", "maxdeque", "maxstring", "maxlong", "maxother", "fillvalue", "indent"]
DEFAULTS = {"indent": None, "maxjsobject": 100, "maxjsarray": 100, "maxlevel": 20, "maxtuple": 100,
            "maxlist": 100, "maxarray": 100, "maxdict": 100, "maxset": 100, "maxfrozenset": 100,
            "maxdeque": 100, "maxstring": 200, "maxlong": 40, "maxother": 100, "fillvalue": "..."}


class Model:
    def __init__(self):
        self.active = [dict(DEFAULTS)]  # a cell: identity is the settings' identity


class World:
    def __init__(self, s, env):
        self.env = env
        self.m = Model()
        self.err = s["err"]
        self.warned = 0
        self.open = 0
        self.failed = None
        self.pool = [JSRepr(**{k: v for k, v in {**DEFAULTS, "maxjsarray": 2 + n, "fillvalue": f"pool{n}"}.items()})
                     for n in range(3)]
        self.pool_cells = [[{**DEFAULTS, "maxjsarray": 2 + n, "fillvalue": f"pool{n}"}] for n in range(3)]

    def prints(self, where):
        self.env.calls += 1
        got = [repr(p) for p in PROBES]
        settings = self.m.active[0]
        check(got == render(settings), "wrong-settings",
              lambda: f"{where}: printed {short(got)} under {settings}")
        if settings["indent"] is None:
            check(got[:2] == plain(settings), "settings-ignored",
                  lambda: f"{where}: printed {short(got[:2])} under {settings}")

    def run(self, who, ops):
        for op in ops:
            if op[0] == "step":
                yield
            elif op[0] == "print":
                self.prints(f"actor {who}")
            elif op[0] == "bad":
                self.env.fault("bad_settings")
                try:
                    with js_repr_settings(maxlevel=1, nonesuch=3):
                        raise Violation("bad-settings-accepted", "unknown keyword")
                except TypeError:
                    pass
                self.prints(f"actor {who} after bad settings")
            else:
                yield from self.block(who, op)

    def block(self, who, op):
        _, mode, kw, force, pi, body, end = op
        w, m = self, self.m
        pi %= 3
        if mode == "pool":
            mine, obj = self.pool_cells[pi], self.pool[pi]
            cm = js_repr_settings(obj, force_restore=bool(force))
        elif mode == "obj":
            fields = {**DEFAULTS, **{k: v for k, v in kw.items() if v is not None or k == "indent"}}
            mine, obj = [fields], JSRepr(**fields)
            cm = js_repr_settings(obj, force_restore=bool(force))
        else:
            mine = None
            cm = js_repr_settings(force_restore=True, **kw) if force else js_repr_settings(**kw)
        if mode == "late":
            yield  # others change the settings before the block is entered
        thrown = None
        warned0 = self.warned
        initial = m.active
        if mine is None:
            mine = [{**initial[0], **{k: v for k, v in kw.items() if v is not None or k == "indent"}}]
        ended_by = None

        def begin(r):
            m.active = mine
            w.open += 1
            if w.open > 1:
                w.env.probe("overlap_or_nest")
                w.env.nontrivial = True
            w.prints(f"actor {who} inside its block")
            check(r is None or [r.repr(p) for p in PROBES] == [repr(p) for p in PROBES], "context-value",
                  "the block's JSRepr prints differently from the active one")

        if mode == "deco":
            # the block is a decorator: entered anew at each call
            @cm
            def call():
                begin(None)
                if end == "raise":
                    raise Boom()
                if end == "base":
                    raise BoomBase()

            try:
                call()
            except (Boom, BoomBase, JSReprSettingsNotRestored) as e:
                thrown = e
            ended_by = {"raise": Boom, "base": BoomBase}.get(end)
            self.ended(who, op, mine, initial, thrown, ended_by, warned0)
            # a second call begins from whatever is active now
            warned0 = self.warned
            initial = m.active
            mine = [{**initial[0], **{k: v for k, v in kw.items() if v is not None or k == "indent"}}]
            thrown = None
            try:
                call()
            except (Boom, BoomBase, JSReprSettingsNotRestored) as e:
                thrown = e
            self.ended(who, op, mine, initial, thrown, ended_by, warned0)
            return
        out = None
        try:
            with cm as r:
                begin(r)
                try:
                    yield from self.run(who, body)
                    if end == "raise":
                        raise Boom()
                    if end == "base":
                        raise BoomBase()
                except BaseException as e:
                    out = e
                    raise
        except Violation:
            raise
        except BaseException as e:  # noqa: BLE001
            thrown = e
        self.ended(who, op, mine, initial, thrown, type(out) if out is not None else None, warned0, out)
        if out is not None and not isinstance(out, (Boom, BoomBase)) or isinstance(out, Thrown):
            raise out

    def ended(self, who, op, mine, initial, thrown, ended_by, warned0, out=None):
        m, force = self.m, op[3]
        self.open -= 1
        restored = m.active is mine or force
        if restored:
            m.active = initial
        if ended_by is not None:
            self.env.fault("block_fails")
        if not restored:
            self.env.fault("overlapping_close")
        self.env.state(op[1], force, restored, ended_by is not None, min(self.open, 4))
        self.env.log("close", who, op[1], restored, ended_by)
        if self.err and not restored:
            check(isinstance(thrown, JSReprSettingsNotRestored), "no-warning",
                  lambda: f"actor {who}: {short(thrown)} instead of the warning as an error")
        elif ended_by is not None:
            check(type(thrown) is ended_by and (out is None or thrown is out), "exception-lost",
                  lambda: f"actor {who}: body raised {ended_by}, block raised {short(thrown)}")
        else:
            check(thrown is None, "block-raised", lambda: f"actor {who}: {short(thrown)}")
        n = self.warned - warned0
        self.closes += 1
        if not self.err:
            self.expect_warnings += 0 if restored else 1
            check(self.warned == self.expect_warnings, "warnings",
                  lambda: f"actor {who}: {self.warned} warnings so far, expected {self.expect_warnings}"
                  f" (restored={restored} force={force})")
        self.prints(f"actor {who} after its block")

    closes = 0
    expect_warnings = 0


class Thrown(Boom):
    pass


def run(s, env):
    w = World(s, env)

    def show(message, category, *a, **k):
        if issubclass(category, JSReprSettingsNotRestored):
            w.warned += 1

    def step(g, how):
        """Advance one actor; True when it has ended."""
        try:
            if how == "t":
                env.fault("thrown_into_actor")
                g.throw(Thrown())
            elif how == "c":
                env.fault("actor_closed")
                g.close()
                return True
            else:
                next(g)
        except (StopIteration, Thrown):
            return True
        return False

    with warnings.catch_warnings(), js_repr_settings(JSRepr(**DEFAULTS), force_restore=True):
        warnings.simplefilter("always")
        if s["err"]:
            warnings.simplefilter("error", JSReprSettingsNotRestored)
        warnings.showwarning = show
        w.prints("start")
        gens = [w.run(i, ops) for i, (_, ops) in enumerate(s["actors"])]
        live = set(range(len(gens)))
        started = set()

        def act(a, how):
            if how != "n" and a not in started:
                how = "n"
            started.add(a)
            if s["actors"][a][0]:
                box = []

                def target():
                    try:
                        box.append(step(gens[a], how))
                    except BaseException as e:  # noqa: BLE001
                        box.append(e)

                t = threading.Thread(target=target)
                t.start()
                t.join()
                if isinstance(box[0], BaseException):
                    raise box[0]
                ended = box[0]
            else:
                ended = step(gens[a], how)
            if ended:
                live.discard(a)

        for a, how in s["sched"]:
            if not live:
                break
            a = sorted(live)[a % len(live)]
            env.log("act", a, how)
            act(a, how)
        while live:
            act(min(live), "n")
        w.prints("end")
    env.advance(len(s["sched"]))
