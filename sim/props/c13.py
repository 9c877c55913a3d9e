"""C13: maps and sets against a reference table, through any history."""
from __future__ import annotations

import copy
import math
import pickle
from collections.abc import Mapping
from fractions import Fraction

from core import check, short

from v8serialize.jstypes import JSHole, JSMap, JSObject, JSSet, JSUndefined

PROP = "C13"
RUNS = {"quick": 40000, "thorough": 600000}
CHUNK = 100
RULE = (
    "scenario = a seeded history of insertions, deletions, lookups, bulk updates from sources that may "
    "fail or change the table half-way, copies, and creation and destruction of member objects over "
    "up to four maps and sets; non-trivial when a source failed or the memory of a discarded "
    "object was reused; distinct by trace digest"
)
STATE_MEASURE = "operation x table kind x size x outcome"
COMPONENTS = {
    "v8serialize JSMap, JSSet, same_value_zero": "real",
    "update sources": "simulated iterables, mappings and keyed objects which fail on schedule",
    "object lifetimes": "simulated (objects dropped at seeded points; CPython reuses their memory)",
}
ASSUMPTIONS = ["CPython reference counting frees discarded objects at once (garbage collection is off)"]


class SrcFailed(Exception):
    pass


class SrcFailedBase(BaseException):
    pass


class Eq:
    """Equal to everything, one hash."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class NoEq:
    """Refuses to be compared or hashed."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        raise TypeError("no comparison")

    def __hash__(self):
        raise TypeError("no hash")


KINDS = ["list", "list", "tuple", "dict", "obj", "ba", "eq", "noeq", "set", "map"]


def make(kind, t):
    if kind == "list":
        return [t]
    if kind == "tuple":
        return ([t],)
    if kind == "dict":
        return {"t": t}
    if kind == "obj":
        return JSObject(t=t)
    if kind == "ba":
        return bytearray(str(t), "ascii")
    if kind == "eq":
        return Eq(t)
    if kind == "noeq":
        return NoEq(t)
    if kind == "set":
        return {("t", t)}
    return JSMap([("t", t)])


def token(v):
    if isinstance(v, list):
        return v[0]
    if isinstance(v, tuple):
        return v[0][0]
    if isinstance(v, (dict, JSObject, JSMap)):
        return v["t"]
    if isinstance(v, bytearray):
        return int(v)
    if isinstance(v, set):
        return next(iter(v))[1]
    return v.t


def retoken(v, t):
    if isinstance(v, list):
        v[0] = t
    elif isinstance(v, tuple):
        v[0][0] = t
    elif isinstance(v, (dict, JSObject, JSMap)):
        v["t"] = t
    elif isinstance(v, bytearray):
        v[:] = str(t).encode()
    elif isinstance(v, set):
        v.clear()
        v.add(("t", t))
    else:
        v.t = t


PLAIN = [
    0, 1, 2, -1, 255, 2**53, 2**53 + 1, 2**64, 10**400, "0x0", 0.0, "-0.0", 1.0, 2.0, 2.5, -1.0, "nan",
    "nan2", "inf", "-inf", 1e300, "true", "false", "none", "undef", "hole", "s:", "s:0", "s:1", "s:a",
    "s:nan", "s:é", "y:", "y:61", "big53", "S:a", "I:1",
]


class Str(str):
    pass


class Int(int):
    pass


def plain(p):
    """A fresh value for a plain key, equal to but not the same object as others."""
    if isinstance(p, int):
        return int(str(p)) if abs(p) < 10**300 else 10**400 + 0
    if isinstance(p, float):
        return float(str(p))
    if p[:2] == "s:":
        return "".join(list(p[2:]))
    if p[:2] == "S:":
        return Str(p[2:])
    if p[:2] == "I:":
        return Int(p[2:])
    if p[:2] == "y:":
        return bytes(bytearray.fromhex(p[2:]))
    return {
        "0x0": 0, "-0.0": -0.0, "nan": float("nan"), "nan2": -float("nan"), "inf": float("inf"),
        "-inf": -float("inf"), "true": True, "false": False, "none": None, "undef": JSUndefined,
        "hole": JSHole, "big53": float(2**53),
    }[p]


def cls(v):
    """The same-value-zero class of a value."""
    if isinstance(v, bool):
        return ("bool", bool(v))
    if isinstance(v, (int, float)):
        if isinstance(v, float) and not math.isfinite(v):
            return ("num", str(abs(v)) if math.isnan(v) else str(v))
        return ("num", Fraction(v))
    if isinstance(v, str):
        return ("str", str.__str__(v))
    if isinstance(v, bytes):
        return ("bytes", bytes(v))
    if v is None or v is JSUndefined or v is JSHole:
        return ("single", repr(v))
    return ("object", token(v))


# -- scenarios -----------------------------------------------------------------

SETOPS = ["|=", "&=", "-=", "^=", "|", "&", "-", "^", "disjoint"]


KWNAMES = ["a", "é", "self", "other", "init", "iterable", "map", "m", "key", "__class__", "1"]


def gen_key(r):
    if r.random() < 0.5:
        return ["o", r.randrange(6)]
    return ["p", r.choice(PLAIN)]


def gen(r, i, tier):
    n = r.choice([4, 10, 25, 60] if tier == "quick" else [4, 25, 60, 150])
    # half the runs use few plain keys, so that classes meet
    ops = []
    few = [["p", r.choice(PLAIN)] for _ in range(5)] if r.random() < 0.5 else None
    few = few and few + [["p", x] for x in r.choice([[0, "-0.0", "false"], [1, 1.0, "true", "s:1", "I:1"],
                                                     ["nan", "nan2", "s:nan"], [2**53, "big53", 2**53 + 1]])]

    def key():
        if few and r.random() < 0.6:
            return r.choice(few)
        return gen_key(r)

    for _ in range(n):
        k = r.random()
        t = r.randrange(4)
        if k < 0.25:
            ops.append(["new", r.randrange(6), r.choice(KINDS)])
        elif k < 0.45:
            ops.append(["set", t, key(), r.randrange(100)])
        elif k < 0.57:
            ops.append(["del", t, key(), r.randrange(3)])
        elif k < 0.6:
            ops.append(["drop", r.randrange(6)])
        elif k < 0.64:
            ops.append(["default", t, key(), r.randrange(100)])
        elif k < 0.68:
            ops.append(["popitem", t])
        elif k < 0.82:
            src = [key() for _ in range(r.randrange(0, 8))]
            fail = r.randrange(len(src) + 1) if r.random() < 0.5 else None
            ops.append(["update", t, r.choice(["pairs", "gen", "gen", "mapping", "keyed", "self", "init"]), src,
                        fail, r.randrange(2), r.choice(["", "", "", "clear", "del", "set"]), r.randrange(8)])
        elif k < 0.9:
            src = [key() for _ in range(r.randrange(0, 7))]
            fail = r.randrange(len(src) + 1) if r.random() < 0.3 else None
            ops.append(["setop", t, r.choice(SETOPS), r.choice(["list", "gen", "set", "map", "self"]), src, fail])
        elif k < 0.915:
            ops.append(["same", t, r.randrange(7), r.randrange(100)])
        elif k < 0.93:
            names = r.sample(KWNAMES, r.randrange(1, 4))
            ops.append(["named", t, r.choice(["update", "update", "init"]), r.choice(["none", "pairs", "dict"]),
                        [key() for _ in range(r.randrange(4))], names])
        elif k < 0.955:
            ops.append(["copy", t, r.choice(["copy", "deepcopy", "pickle", "ctor"]), r.randrange(2)])
        elif k < 0.97:
            ops.append(["clear", t])
        else:
            ops.append(["fresh", t])
    return {"kinds": [r.choice("ms") for _ in range(r.randrange(1, 5))], "ops": ops}


# some of the values stored
FALSY = {j: v for j, v in enumerate([None, None, None, JSUndefined, JSHole, 0, "", False, (), None])}


class T:
    """A table and its reference: class -> value."""

    def __init__(self, kind):
        self.kind = kind
        self.real = JSMap() if kind == "m" else JSSet()
        self.ref = {}


class FailingMapping(Mapping):
    def __init__(self, pairs, touch):
        self.p = pairs
        self.touch = touch

    def __iter__(self):
        for k, _ in self.p:
            yield k

    def items(self):
        for n, (k, v) in enumerate(self.p):
            self.touch(n)
            yield k, v
        self.touch(len(self.p))

    def __getitem__(self, k):
        raise AssertionError

    def __len__(self):
        return len(self.p)


class Keyed:
    def __init__(self, pairs, touch):
        self.p = pairs
        self.touch = touch
        self.n = 0

    def keys(self):
        for k, _ in self.p:
            yield k
        self.touch(len(self.p))

    def __getitem__(self, k):
        n = self.n
        self.n += 1
        self.touch(n)
        return self.p[n][1]


def run(s, env):
    tables = [T(k) for k in s["kinds"]] or [T("m")]
    slots = [None] * 6
    names = iter(range(1, 10**9))
    freed: set = set()

    def new(kind):
        o = make(kind, next(names))
        if id(o) in freed:
            freed.discard(id(o))
            env.probe("memory_reused")
            env.nontrivial = True
        return o

    def key(k):
        if k[0] == "p":
            return plain(k[1])
        j = k[1] % 6
        if slots[j] is None:
            slots[j] = new(KINDS[j])
        return slots[j]

    def release(o):
        """The harness no longer needs o: it may go now."""
        if cls(o)[0] == "object" and not isinstance(o, (set,)):
            freed.add(id(o))

    def verify(t, where):
        m, ref = t.real, t.ref
        env.calls += 1
        check(len(m) == len(ref) and bool(m) == bool(ref), "length",
              lambda: f"{where}: len {len(m)} of {short(list(ref))}")
        got = [cls(k) for k in m]
        check(got == list(ref), "order", lambda: f"{where}: iterates {short(got)} reference {short(list(ref))}")
        for k in m:
            check(k in m, "member-lost", lambda: f"{where}: {short(k)} iterated but not in")
        if t.kind == "m":
            items = [(cls(k), v) for k, v in m.items()]
            check(items == list(ref.items()), "items", lambda: f"{where}: {short(items)} reference {short(ref)}")
            check(list(m.values()) == list(ref.values()), "values", lambda: f"{where}: {short(list(m.values()))}")
            for k in m:
                c = cls(k)
                check(m[k] == ref[c] and m.get(k, "no") == ref[c] and k in m.keys(), "lookup",
                      lambda: f"{where}: {short(k)} -> {m[k]}")

    def probe(t, where):
        for o in [x for x in slots if x is not None] + [plain(p) for p in PLAIN]:
            want = cls(o) in t.ref
            check((o in t.real) == want, "membership", lambda: f"{where}: {short(o)} in: {not want}")
            if t.kind == "m":
                check(t.real.get(o, "none") == t.ref.get(cls(o), "none"), "get", lambda: f"{where}: {short(o)}")

    def put(t, k, v):
        t.ref[cls(k)] = v if t.kind == "m" else None

    for n, op in enumerate(s["ops"]):
        what = op[0]
        if what == "new":
            j = op[1] % 6
            if slots[j] is not None:
                release(slots[j])
            slots[j] = None
            slots[j] = new(op[2])
            outcome = ""
            for t in tables:
                check(slots[j] not in t.real, "confused",
                      lambda: f"op {n}: a new {op[2]} is taken for a member of {short(t.ref)}")
        elif what == "drop":
            j = op[1] % 6
            if slots[j] is not None:
                release(slots[j])
            slots[j] = None
            outcome = ""
        else:
            t = tables[op[1] % len(tables)]
            outcome = one(t, op, n, tables, key, put, new, names, env)
            where = f"op {n} {what}"
            verify(t, where)
            if n % 4 == 3:
                probe(t, where)
            env.state(what, op[2] if what in ("update", "setop", "copy") else "", t.kind, min(len(t.ref), 6), outcome)
        env.log(n, what, outcome, [len(t.ref) for t in tables])
    for t in tables:
        verify(t, "end")
        probe(t, "end")
    env.advance(len(s["ops"]))


def one(t, op, n, tables, key, put, new, names, env):
    m, ref = t.real, t.ref
    what = op[0]
    if what == "set":
        k = key(op[2])
        v = FALSY.get(op[3], op[3])
        if t.kind == "m":
            m[k] = v
        else:
            m.add(k)
        put(t, k, v)
        return ""
    if what == "del":
        k = key(op[2])
        c = cls(k)
        how = op[3]
        there = c in ref
        try:
            if t.kind == "m":
                if how == 0:
                    del m[k]
                elif how == 1:
                    check(m.pop(k, "no") == ref.get(c, "no"), "pop", lambda: f"op {n}: {short(k)}")
                else:
                    check(m.pop(k) == ref.get(c), "pop", lambda: f"op {n}: {short(k)}")
            elif how == 0:
                m.remove(k)
            else:
                m.discard(k)
            ok = True
        except KeyError:
            ok = False
        want = there or (how == 1 if t.kind == "m" else how != 0)
        check(ok == want, "delete", lambda: f"op {n}: deleting {short(k)} ok={ok}, present={there}")
        ref.pop(c, None)
        return there
    if what == "default":
        k = key(op[2])
        if t.kind == "m":
            v = FALSY.get(op[3], op[3])
            got = m.setdefault(k, v)
            check(got == ref.setdefault(cls(k), v), "setdefault", lambda: f"op {n}: {short(k)} gave {got}")
        else:
            check(m.isdisjoint([k]) == (cls(k) not in ref), "isdisjoint", lambda: f"op {n}: {short(k)}")
        return ""
    if what == "popitem":
        try:
            got = m.popitem() if t.kind == "m" else (m.pop(), None)
        except KeyError:
            check(not ref, "popitem", lambda: f"op {n}: empty?")
            return "empty"
        c = cls(got[0])
        check(c in ref and ref.pop(c) == got[1], "popitem", lambda: f"op {n}: {short(got)}")
        return ""
    if what == "clear":
        m.clear()
        ref.clear()
        return ""
    if what == "fresh":
        # objects made and thrown away: none may be taken for a member
        for kind in KINDS * 2:
            o = new(kind)
            check(o not in m, "confused", lambda: f"op {n}: a new {kind} is taken for a member")
            if t.kind == "m":
                check(m.get(o) is None, "confused", lambda: f"op {n}: a new {kind} has a value")
            del o
        return ""
    if what == "update":
        return update(t, op, n, key, put, env)
    if what == "setop":
        return setop(t, op, n, tables, key, env)
    if what == "same":
        return same(t, op, n, env)
    if what == "named":
        if t.kind != "m":
            return ""
        pairs = [(key(k), 2000 + j) for j, k in enumerate(op[4])]
        kw = {x: 3000 + j for j, x in enumerate(op[5])}
        src = pairs
        if op[3] == "dict":
            src = FailingMapping(pairs, lambda j: None)
        args = () if op[3] == "none" else (src,)
        if op[2] == "init":
            ref.clear()
            m = t.real = JSMap(*args, **kw)
        else:
            check(m.update(*args, **kw) is None, "named", f"op {n}")
        for k, v in [*(pairs if args else ()), *kw.items()]:
            put(t, k, v)
        return op[3]
    if what == "copy":
        return copied(t, op, n, tables, names)
    raise AssertionError(what)


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return type(e).__name__


def same(t, op, n, env):
    """Equality reads as documented: a list of items against its own kind, a
    dict (or a set) against other mappings (or sets)."""
    _, _, how, at = op
    m = t.real
    items = list(m.items()) if t.kind == "m" else list(m)
    make, plain_type = (JSMap, dict) if t.kind == "m" else (JSSet, set)
    other = list(items)
    at %= max(1, len(items))
    if how == 1:
        other.reverse()
    elif how == 2 and items:
        other[at] = (other[at][0], ("changed",)) if t.kind == "m" else ("changed",)
    elif how == 3:
        other.append((("more",), 1) if t.kind == "m" else ("more",))
    elif how == 4 and items:
        del other[at]
    elif how == 5 and items:
        # an equal key which is not the same object: [1] is [1] to a list
        k = other[at][0] if t.kind == "m" else other[at]
        if type(k) in (list, bytearray, dict):
            k = type(k)(k)
            other[at] = (k, other[at][1]) if t.kind == "m" else k
    # against its own kind: as lists of items
    o = make(other)
    want = attempt(lambda: items == other)
    for a, b, x, y in ((m, o, items, other), (o, m, other, items)):
        w = want if a is m else attempt(lambda: x == y)
        got = attempt(lambda: a == b)
        check(got == w, "equality", lambda: f"op {n}: {short(a)} == {short(b)} gives {got}, the items give {w}")
        if isinstance(w, bool):
            check((a != b) is (not w), "equality", lambda: f"op {n}: {short(a)} != {short(b)}")
    check(m == m and not m != m, "equality", f"op {n}: not equal to itself")
    # against a plain dict or set: as one of those
    try:
        p = plain_type(other)
        mine = plain_type(items)
    except Exception:
        p = mine = None
    if p is not None:
        want = attempt(lambda: len(items) == len(p) and mine == p)
        for got in (attempt(lambda: m == p), attempt(lambda: p == m)):
            check(got == want, "equality",
                  lambda: f"op {n}: {short(m)} == {short(p)} gives {got}, as a {plain_type.__name__} {want}")
        env.probe("compared_with_plain")
    elif t.kind == "m" and len(other) == len(items):
        # not every key can be a dict key: the items in order again
        fm = FailingMapping(other, lambda j: None)
        got = attempt(lambda: m == fm)
        want = attempt(lambda: items == other)
        check(got == want, "equality", lambda: f"op {n}: {short(m)} == mapping of {short(other)} gives {got}, {want}")
        env.probe("compared_unhashable")
    for x in (items, tuple(items), None, 0, JSSet() if t.kind == "m" else JSMap()):
        check(not attempt(lambda: m == x) is True, "equality", lambda: f"op {n}: {short(m)} == {short(x)}")
    return (how, want)


def update(t, op, n, key, put, env):
    _, _, how, src, fail, exc, during, at = op
    m, ref = t.real, t.ref
    if how == "init":
        during = ""
    pairs = [(key(k), 1000 * n + j) for j, k in enumerate(src)]
    fired = []

    def touch(j):
        """The source is asked for item j."""
        if j == at and during:
            fired.append("changed")
            env.fault("changed_during_update")
            if during == "clear":
                m.clear()
                ref.clear()
            elif during == "del" and ref:
                k = next(iter(m))
                ref.pop(cls(k))
                if t.kind == "m":
                    del m[k]
                else:
                    m.discard(k)
            elif during == "set":
                if t.kind == "m":
                    m["during"] = 7
                else:
                    m.add("during")
                put(t, "during", 7)
        if fail is not None and j == fail:
            fired.append("failed")
            env.fault("update_source_fails")
            raise (SrcFailedBase if exc else SrcFailed)(j)
        if j < len(pairs):
            put(t, *pairs[j])

    def gen():
        for j, p in enumerate(pairs):
            touch(j)
            yield p if t.kind == "m" else p[0]
        touch(len(pairs))

    if how == "self":
        if t.kind == "m":
            m.update(m)
        else:
            m |= m
        return "self"
    if how == "pairs":
        for p in pairs:
            put(t, *p)
        if t.kind == "m":
            m.update(pairs)
        else:
            m |= [p[0] for p in pairs]
        return ""
    try:
        if how == "init":
            # a new table from a source: failing construction leaves nothing
            before = dict(ref)
            ref.clear()
            try:
                x = JSMap(gen()) if t.kind == "m" else JSSet(gen())
                got = [cls(k) for k in x]
                check(got == list(ref), "constructor", lambda: f"op {n}: {short(got)} from {short(ref)}")
            finally:
                ref.clear()
                ref.update(before)
        elif t.kind == "s" or how == "gen":
            if t.kind == "m":
                m.update(gen())
            else:
                m |= gen()
        elif how == "mapping":
            m.update(FailingMapping(pairs, touch))
        else:
            m.update(Keyed(pairs, touch))
        check("failed" not in fired, "failure-swallowed", lambda: f"op {n}: the source failed, update did not")
        return "ok"
    except (SrcFailed, SrcFailedBase):
        return "failed"


def setop(t, op, n, tables, key, env):
    _, _, how, src_kind, src, fail = op
    if t.kind == "m":
        return ""
    m, ref = t.real, t.ref
    vals = [key(k) for k in src]
    classes = list(dict.fromkeys(cls(v) for v in vals))
    failed = []

    def gen():
        for j, v in enumerate(vals):
            if j == fail:
                failed.append(j)
                env.fault("update_source_fails")
                raise SrcFailed
            yield v

    if src_kind == "self":
        other, classes = m, list(ref)
    elif src_kind == "set":
        other = JSSet(vals)
    elif src_kind == "map":
        other = JSMap([(v, 1) for v in vals])
    elif src_kind == "gen":
        other = gen()
    else:
        other = list(vals)
    before = list(ref)
    inter = [c for c in before if c in classes]
    union = before + [c for c in classes if c not in ref]
    minus = [c for c in before if c not in classes]
    sym = minus + [c for c in classes if c not in ref]
    want = {"|": union, "&": inter, "-": minus, "^": sym}.get(how[0])
    try:
        if how == "disjoint":
            got = m.isdisjoint(other)
            check(got == (not inter) or failed, "isdisjoint", lambda: f"op {n}: {got}")
            return ""
        if how == "|=":
            m |= other
        elif how == "&=":
            m &= other
        elif how == "-=":
            m -= other
        elif how == "^=":
            m ^= other
        else:
            if how == "|":
                res = m | other
            elif how == "&":
                res = m & other
            elif how == "-":
                res = m - other
            else:
                res = m ^ other
            check(not failed, "failure-swallowed", f"op {n}")
            check(isinstance(res, JSSet) and res is not m, "operator-type", lambda: f"op {n}: {type(res)}")
            got = [cls(k) for k in res]
            check(sorted(map(str, got)) == sorted(map(str, want)), "operator",
                  lambda: f"op {n} {how}: {short(got)} expected {short(want)}")
            return ""
    except SrcFailed:
        check(failed, "harness", "no source failed")
        # what was done before the failure, or nothing
        now = [cls(k) for k in m]
        done = list(dict.fromkeys(cls(v) for v in vals[:failed[0]]))
        ok = [before] if how in ("&=", "^=") or len(how) == 1 or how == "disjoint" else []
        if how == "|=":
            ok.append(before + [c for c in done if c not in before])
        if how == "-=":
            ok.append([c for c in before if c not in done])
        if how == "^=":
            ok.append([c for c in before if c not in done] + [c for c in done if c not in before])
        check(now in ok, "failed-update", lambda: f"op {n} {how}: left {short(now)} expected one of {short(ok)}")
        ref.clear()
        ref.update(dict.fromkeys(now))
        return "failed"
    check(not failed, "failure-swallowed", f"op {n}")
    check(m is t.real, "inplace-type", f"op {n} {how}")
    now = [cls(k) for k in m]
    check(sorted(map(str, now)) == sorted(map(str, want)), "operator",
          lambda: f"op {n} {how}: {short(now)} expected {short(want)}")
    # members kept are kept in their order
    kept = [c for c in now if c in before]
    check(kept == [c for c in before if c in kept], "order", lambda: f"op {n} {how}: {short(now)} was {short(before)}")
    ref.clear()
    ref.update(dict.fromkeys(now))
    return ""


def copied(t, op, n, tables, names):
    _, _, how, keep = op
    m = t.real
    c = T(t.kind)
    if how == "ctor":
        c.real = type(m)(m)
        c.ref = dict(t.ref)
    elif how == "copy":
        c.real = copy.copy(m)
        c.ref = dict(t.ref)
    else:
        if any(isinstance(k, JSObject) for k in m):
            return "uncopyable"
        try:
            c.real = copy.deepcopy(m) if how == "deepcopy" else pickle.loads(pickle.dumps(m))
        except (pickle.PicklingError, AttributeError, ImportError):
            return "unpicklable"
        check(c.real is not m and type(c.real) is type(m), "copy-type", f"op {n}")
        check([cls(k) for k in c.real] == list(t.ref), "copy-order", lambda: f"op {n} {how}: {short(c.real)}")
        for k, v in zip(list(c.real), list(t.ref.values())):
            if cls(k)[0] == "object":
                check(k not in m, "copy-shares", lambda: f"op {n} {how}: {short(k)} is in the original")
                retoken(k, next(names))
            c.ref[cls(k)] = v
    for k in c.real:
        check(k in c.real, "copy-lost", lambda: f"op {n} {how}: {short(k)} not in the copy")
    if keep and len(tables) < 4:
        tables.append(c)
    else:
        t.real, t.ref = c.real, c.ref
    return how
