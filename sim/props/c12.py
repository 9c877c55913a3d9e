"""C12: objects, arrays and their element storage against one ordered property table."""
from __future__ import annotations

from core import check, short
from graphs import sub_key

from v8serialize import dumps, loads
from v8serialize._typing import Order
from v8serialize.jstypes import JSArray, JSHole, JSObject
from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties

PROP = "C12"
RUNS = {"quick": 36000, "thorough": 500000}
CHUNK = 100
RULE = (
    "scenario = a seeded history of property and element operations on an object, an array, or "
    "element storage of either kind alone, with update sources that fail or change the object "
    "half-way, indexes drawn around the storage-switching thresholds and up to the maximum array "
    "length, every public read compared to one reference table after each step; non-trivial when a "
    "source failed, an operation was refused or storage switched; distinct by trace digest"
)
STATE_MEASURE = "operation x kind of subject x storage x size class x outcome"
COMPONENTS = {
    "v8serialize JSObject, JSArray, array properties": "real",
    "update sources": "simulated iterables, mappings and keyed objects which fail on schedule",
}
ASSUMPTIONS = ["slices are not supported by array properties (NotImplementedError)"]
MAX = 2**32 - 1


class SrcFailed(Exception):
    pass


class SrcFailedBase(BaseException):
    pass


INDEXES = [0, 0, 1, 2, 3, 4, 7, 14, 15, 16, 17, 30, 63, 64, 200]
FAR = [5000, 2**31, 2**31 - 1, 2**32 - 3, 2**32 - 2]
NAMES = ["a", "b", "length", "01", "-1", "1.5", "4294967295", "-0", "", "é", "00", "1e3", " 1", "١", "x" * 12,
         "99999999999", "+1", "1_0", "9" * 5000, "0" * 5000, "-" + "9" * 5000]


def gen_key(r, far):
    """A property key: [canonical form, spelling]."""
    k = r.random()
    if k < 0.65:
        i = r.choice(FAR) if far and r.random() < 0.3 else r.choice(INDEXES) if r.random() < 0.8 else r.randrange(70)
        return ["i", i, r.choice("iiisf" if r.random() < 0.85 else "ISF")]
    if k < 0.95:
        return ["p" if r.random() < 0.85 else "q", r.choice(NAMES)]
    return ["n", r.choice([-1, -2, MAX, 2**40, -1.0, 1.5, float(MAX), 2.0**40])]


def gen(r, i, tier):
    subject = r.choice(["obj", "obj", "arr", "arr", "dense", "sparse", "sparse"])
    n = r.choice([3, 8, 20, 45] if tier == "quick" else [3, 20, 45, 120])
    far = r.random() < 0.35 and subject != "dense"
    ops = []
    flavour = r.choice(["mixed", "mixed", "elements", "shrink"])
    for _ in range(n):
        k = r.random()
        if subject in ("dense", "sparse") or k < (0.6 if flavour == "elements" else 0.35):
            ops.append(gen_el(r, flavour, far, subject))
            continue
        k = r.random()
        if k < 0.35:
            ops.append(["set", gen_key(r, far), hole(r)])
        elif k < 0.55:
            ops.append(["del", gen_key(r, far), r.randrange(3)])
        elif k < 0.62:
            ops.append(["default", gen_key(r, far), r.randrange(99)])
        elif k < 0.68:
            ops.append(["popitem"])
        elif k < 0.70:
            ops.append(["clear"])
        elif k < 0.95:
            src = [[gen_key(r, far and r.random() < 0.3), hole(r)] for _ in range(r.randrange(0, 8))]
            ops.append(["update", r.choice(["pairs", "gen", "gen", "mapping", "keyed", "kwargs", "object"]), src,
                        r.randrange(len(src) + 1) if r.random() < 0.5 else None, r.randrange(2),
                        r.choice(["", "", "set", "del", "resize"]), r.randrange(6)])
        else:
            ops.append(["wire"])
    init = [hole(r) for _ in range(r.randrange(0, r.choice([1, 4, 20])))]
    return {"subject": subject, "init": init, "how": r.choice(["list", "gen", "pairs", "fail"]), "ops": ops,
            "at": r.randrange(6), "entries": gen_entries(r) if subject == "sparse" and r.random() < 0.5 else None}


def gen_entries(r):
    """Initial indexes of sparse storage in any order, the source's form, and the length asked for."""
    idx = [r.choice(FAR + INDEXES + INDEXES) for _ in range(r.randrange(0, 9))]
    if r.random() < 0.3:
        idx.insert(r.randrange(len(idx) + 1), r.choice([-1, -2**31, MAX, MAX + 1, 2**53]))
    length = r.choice([None, None, 0, 1, 5, 17, 3000, MAX, MAX, -1, MAX + 1])
    return [[i, r.randrange(100)] for i in idx], r.choice(["list", "gen", "map", "keyed", "fail"]), length


def hole(r):
    return "hole" if r.random() < 0.15 else r.randrange(1000)


def gen_el(r, flavour, far, subject):
    k = r.random()
    idx = r.choice([0, -1, 1, -2, 2, 5, 14, -5, 16, 40, 1000, "end", "last", "mid", "mid", "mid"])
    if k < 0.2:
        return ["e=", idx, hole(r)]
    if k < 0.38:
        return ["append", hole(r)]
    if k < 0.52:
        return ["insert", idx, hole(r)]
    if k < 0.64:
        return ["edel", idx]
    if k < 0.8:
        big = [70, 300, 5000, MAX, MAX - 1, 2**31] if subject == "sparse" or far else [70, 300]
        bad = [-1, MAX + 1, 2**33]
        return ["resize", r.choice([0, 1, 2, 3, 5, "half", "half", "more", "same", 15, 16, 17] + big[: 1 + r.randrange(len(big))]
                                   + (bad if r.random() < 0.2 else []))]
    if k < 0.85:
        return ["pop", r.choice([None, 0, -1, idx])]
    if k < 0.88:
        return ["remove", r.randrange(1000)]
    if k < 0.96:
        src = [hole(r) for _ in range(r.randrange(0, 6))]
        return ["extend", r.choice(["list", "gen", "self", "iadd"]), src,
                r.randrange(len(src) + 1) if r.random() < 0.5 else None]
    return [r.choice(["reverse", "eclear"])]


class Ref:
    """The property table: elements by index, a length, names in insertion order."""

    def __init__(self):
        self.el = {}
        self.len = 0
        self.props = {}

    def copy(self):
        c = Ref()
        c.el, c.len, c.props = dict(self.el), self.len, dict(self.props)
        return c

    def state(self):
        return (dict(sorted(self.el.items())), self.len, list(self.props.items()))


def value(v):
    return JSHole if v == "hole" else v


def spell(k):
    """(canonical key, the spelling used)."""
    if k[0] == "i":
        i = k[1]
        s = i if k[2] in "iI" else str(i) if k[2] in "sS" else float(i)
        return i, (s if k[2] in "isf" else sub_key(s))
    if k[0] == "q":  # a user's subclass of str, as the members of many enums are
        return k[1], sub_key(k[1])
    if k[0] == "p":
        return k[1], "".join(list(k[1]))
    v = k[1]
    return (str(int(v)) if v == int(v) else str(v)), v


def put(ref, k, v):
    if isinstance(k, int):
        ref.len = max(ref.len, k + 1)
        if v is JSHole:
            ref.el.pop(k, None)
        else:
            ref.el[k] = v
    elif v is JSHole:
        ref.props.pop(k, None)
    else:
        ref.props[k] = v


def dense_of(ref):
    return [ref.el.get(i, JSHole) for i in range(ref.len)]


def from_list(ref, lst):
    ref.len = len(lst)
    ref.el = {i: v for i, v in enumerate(lst) if v is not JSHole}


SMALL = 3000


class World:
    def __init__(self, env, subject):
        self.env = env
        self.subject = subject
        self.o = None  # object or None
        self.a = None
        self.ref = Ref()

    @property
    def array(self):
        return self.o.array if self.o is not None else self.a

    def verify(self, where):
        ref, a = self.ref, self.array
        self.env.calls += 1
        keys = sorted(ref.el)
        check(len(a) == ref.len, "array-length", lambda: f"{where}: {len(a)} expected {ref.len}")
        check(a.elements_used == len(ref.el), "elements-used", lambda: f"{where}: {a.elements_used} expected {len(ref.el)}")
        check(list(a.element_indexes()) == keys, "element-indexes",
              lambda: f"{where}: {short(list(a.element_indexes()))} expected {short(keys)}")
        check(list(a.element_indexes(order=Order.DESCENDING)) == keys[::-1], "element-indexes-descending",
              lambda: f"{where}: {short(list(a.element_indexes(order=Order.DESCENDING)))}")
        check(sorted(a.element_indexes(order=Order.UNORDERED)) == keys, "element-indexes-unordered", lambda: f"{where}")
        ev = a.elements()
        check(list(ev.items()) == [(k, ref.el[k]) for k in keys] and len(ev) == len(keys), "elements",
              lambda: f"{where}: {short(list(ev.items()))} expected {short(ref.el)}")
        for k in {0, 1, ref.len - 1, ref.len, ref.len + 1, -1, keys[-1] if keys else 3, (keys[0] if keys else 0) + 1}:
            check(ev.get(k, "none") == ref.el.get(k, "none") and (k in ev) == (k in ref.el), "elements-lookup",
                  lambda: f"{where}: elements()[{k}]")
        if ref.len <= SMALL:
            want = dense_of(ref)
            got = list(a)
            check(got == want, "iteration", lambda: f"{where}: {short(got)} expected {short(want)}")
            if ref.len < 70:
                check([a[i] for i in range(ref.len)] == want and [a[i - ref.len] for i in range(ref.len)] == want,
                      "index", lambda: f"{where}: {short([a[i] for i in range(ref.len)])} expected {short(want)}")
                check(list(reversed(a)) == want[::-1], "reversed", where)
        if ref.len < 70 or len(keys) < 40:
            self.verify_equality(where, keys)
        for i in (ref.len, -ref.len - 1):
            try:
                x = a[i]
            except IndexError:
                continue
            check(False, "out-of-range", lambda: f"{where}: [{i}] of length {ref.len} gave {short(x)}")
        if self.o is not None:
            self.verify_object(where, keys)

    def verify_equality(self, where, keys):
        """Equal to the same elements in other storage, and to nothing else."""
        ref, a = self.ref, self.array
        pairs = [(k, ref.el[k]) for k in reversed(keys)]
        twins = [SparseArrayProperties(entries=pairs, length=ref.len)]
        odd = [SparseArrayProperties(entries=pairs, length=ref.len + 1 if ref.len < MAX else MAX - 1)]
        if keys and keys[-1] == ref.len - 1:
            twins.append(SparseArrayProperties(entries=dict(pairs)))
        if ref.len < 70:
            twins.append(DenseArrayProperties(dense_of(ref)))
            odd.append(DenseArrayProperties([*dense_of(ref), JSHole]))
        if keys:
            k = keys[len(keys) // 2]
            odd.append(SparseArrayProperties(entries=[p for p in pairs if p[0] != k], length=ref.len))
            odd.append(SparseArrayProperties(entries=[*pairs, (k, "x")], length=ref.len))
            if ref.len > len(keys):  # moved into a hole
                h = next(i for i in range(ref.len) if i not in ref.el)
                odd.append(SparseArrayProperties(entries=[(h if i == k else i, v) for i, v in pairs], length=ref.len))
        for b in twins:
            check(a == b and b == a and not a != b, "equal-storage", lambda: f"{where}: not equal to {short(b)}")
        for b in odd:
            check(a != b and b != a and not a == b, "unequal-storage", lambda: f"{where}: equal to {short(b)}")

    def verify_object(self, where, keys):
        ref, o = self.ref, self.o
        want = [(k, ref.el[k]) for k in keys] + list(ref.props.items())
        got = list(o.items())
        check(got == want and [type(k) is int for k, _ in got] == [type(k) is int for k, _ in want], "items",
              lambda: f"{where}: {short(got)} expected {short(want)}")
        check(list(o) == [k for k, _ in want] and len(o) == len(want) and bool(o) == bool(want), "keys",
              lambda: f"{where}: {short(list(o))} len {len(o)} expected {short(want)}")
        check(dict(o.properties) == ref.props and list(o.properties) == list(ref.props), "properties",
              lambda: f"{where}: {short(o.properties)}")
        for k, v in want[:40] + want[-3:]:
            for s in ([k, str(k), float(k)] if isinstance(k, int) else [k]):
                check(s in o and o[s] == v and o.get(s) == v, "lookup", lambda: f"{where}: {s!r}")

    def absent(self, where):
        ref, o = self.ref, self.o
        for k in [0, 1, 2, 5, 15, 16, 17, ref.len, ref.len + 1, 2**32 - 2, MAX] + NAMES:
            c = str(k) if isinstance(k, int) and k >= MAX else k
            want = ref.el.get(c, ref.props.get(c, "none"))
            if isinstance(k, int) or k in ("a", "b", "length") or not k.isdecimal():
                check(o.get(k, "none") == want and (k in o) == (want != "none"), "absent-lookup",
                      lambda: f"{where}: {k!r} -> {short(o.get(k, 'none'))} expected {short(want)}")
            if isinstance(k, int):
                check(o.get(str(k), "none") == want, "absent-lookup", lambda: f"{where}: {str(k)!r}")


class FailMapping:
    def __init__(self, pairs, touch, keyed):
        self.p = pairs
        self.touch = touch
        self.n = 0

    def keys(self):
        for n, (k, _) in enumerate(self.p):
            yield k
        self.touch(len(self.p))

    def __getitem__(self, k):
        n = self.n
        self.n += 1
        self.touch(n)
        return self.p[n][1]


def run(s, env):
    w = World(env, s["subject"])
    start(w, s)
    w.verify("start")
    dense0 = isinstance(w.array, DenseArrayProperties)
    for n, op in enumerate(s["ops"]):
        out = step(w, op, n)
        w.verify(f"op {n} {op[0]}")
        if w.o is not None and n % 5 == 4:
            w.absent(f"op {n} {op[0]}")
        dense = isinstance(w.array, DenseArrayProperties)
        if dense0 and not dense:
            env.probe("storage_switched")
            env.nontrivial = True
        dense0 = dense
        env.state(op[0], s["subject"], dense, min(w.ref.len.bit_length(), 33), out)
        env.log(n, op[0], out, w.ref.len, len(w.ref.el), len(w.ref.props))
    if w.o is not None:
        w.absent("end")
    env.advance(len(s["ops"]))


def start(w, s):
    env, ref = w.env, w.ref
    init = [value(v) for v in s["init"]]
    how = s["how"]
    kind = s["subject"]
    src = iter(list(init)) if how == "gen" else list(init)
    if how == "fail":
        def boom():
            for j, v in enumerate(init):
                if j == s["at"]:
                    break
                yield v
            env.fault("source_fails")
            raise SrcFailed
        for make in (JSArray, DenseArrayProperties, SparseArrayProperties):
            try:
                make(boom())
                check(False, "failure-swallowed", make.__name__)
            except SrcFailed:
                pass
    if kind == "sparse" and s["entries"]:
        w.a = from_entries(env, ref, *s["entries"], s["at"])
    elif kind in ("dense", "sparse"):
        w.a = (DenseArrayProperties if kind == "dense" else SparseArrayProperties)(src)
        from_list(ref, init)
    elif kind == "arr" and how != "pairs":
        w.o = JSArray(src)
        from_list(ref, init)
    else:
        pairs = [(i, v) for i, v in enumerate(init)]
        w.o = (JSArray if kind == "arr" else JSObject)(dict(pairs) if kind == "arr" else pairs, z=1)
        for k, v in pairs:
            put(ref, k, v)
        put(ref, "z", 1)


def from_entries(env, ref, pairs, how, length, at):
    src = [(i, v) for i, v in pairs]
    bad_length = length is not None and not 0 <= length <= MAX
    # with a length, what is beyond it is left out
    bad = bad_length or any(i < 0 or (length is None and i >= MAX) for i, _ in src)
    touched = []

    def touch(j):
        touched.append(j)
        if j == at:
            env.fault("source_fails")
            raise SrcFailed

    def boom():
        for j, p in enumerate(src):
            touch(j)
            yield p

    def make():
        e = (list(src) if how == "list" else iter(list(src)) if how == "gen" else boom() if how == "fail" else
             dict(src) if how == "map" else FailMapping(list(dict(src).items()), touched.append, how))
        return SparseArrayProperties(entries=e, length=length)

    text = f"SparseArrayProperties({src}, {length}) from {how}"
    if how == "fail" and at < len(src):
        try:
            make()
        except (SrcFailed, ValueError, IndexError) as e:
            check(bad or isinstance(e, SrcFailed), "refused", text)
        else:
            check(False, "failure-swallowed", text)
        how = "list"
    if bad:
        env.fault("refused")
        try:
            a = make()
        except (ValueError, IndexError):
            pass
        else:
            check(False, "not-refused", lambda: f"{text}: gave {short(a)}")
        src = []
        length = 0
        how = "list"
    a = make()
    ref.el = {i: v for i, v in src if length is None or i < length}
    ref.len = length if length is not None else max(ref.el, default=-1) + 1
    return a


def resolve(i, ref):
    if i == "end":
        return ref.len
    if i == "last":
        return ref.len - 1
    if i == "mid":
        return ref.len // 2
    return i


def step(w, op, n):
    if op[0] in ("e=", "append", "insert", "edel", "resize", "pop", "remove", "extend", "reverse", "eclear"):
        return element(w, op, n)
    if w.o is None:
        return "skip"
    return prop(w, op, n)


def refused(w, exc, f, what):
    """The operation must be refused with exc and change nothing."""
    w.env.fault("refused")
    try:
        r = f()
    except exc:
        return "refused"
    check(False, "not-refused", lambda: f"{what}: gave {short(r)}")


def element(w, op, n):
    ref, a, env = w.ref, w.array, w.env
    what = op[0]
    L = ref.len
    text = f"op {n} {op} on length {L}"
    if what == "e=":
        i, v = resolve(op[1], ref), value(op[2])
        if not -L <= i < L:
            return refused(w, IndexError, lambda: a.__setitem__(i, v), text)
        a[i] = v
        put(ref, i % L, v)
        return ""
    if what == "append":
        v = value(op[1])
        if L >= MAX:
            return refused(w, IndexError, lambda: a.append(v), text)
        a.append(v)
        put(ref, L, v)
        return ""
    if what == "insert":
        i, v = resolve(op[1], ref), value(op[2])
        if i < -L or L >= MAX:
            return refused(w, IndexError, lambda: a.insert(i, v), text)
        a.insert(i, v)
        j = min(i, L) if i >= 0 else i + L
        ref.el = {(k + 1 if k >= j else k): x for k, x in ref.el.items()}
        ref.len += 1
        if v is not JSHole:
            ref.el[j] = v
        return ""
    if what in ("edel", "pop"):
        i = resolve(op[1], ref) if op[1] is not None else -1
        if not -L <= i < L:
            return refused(w, IndexError, (lambda: a.__delitem__(i)) if what == "edel" else (lambda: a.pop(i)), text)
        j = i % L
        if what == "edel":
            del a[i]
        else:
            got = a.pop() if op[1] is None else a.pop(i)
            check(got == ref.el.get(j, JSHole), "pop", lambda: f"{text}: {short(got)}")
        ref.el = {(k - 1 if k > j else k): x for k, x in ref.el.items() if k != j}
        ref.len -= 1
        return ""
    if what == "resize":
        m = op[1]
        m = L // 2 if m == "half" else L + 9 if m == "more" else L if m == "same" else m
        if not 0 <= m <= MAX:
            return refused(w, ValueError, lambda: a.resize(m), text)
        if m > 400 and isinstance(a, DenseArrayProperties) and m > L:
            return "skip"
        a.resize(m)
        ref.len = m
        ref.el = {k: x for k, x in ref.el.items() if k < m}
        return ""
    if L > 400:
        return "skip"
    lst = dense_of(ref)
    if what == "remove":
        v = lst[op[1] % L] if L and op[1] % 3 else op[1] + 10**6
        if v not in lst:
            return refused(w, ValueError, lambda: a.remove(v), text)
        check(a.index(v) == lst.index(v) and a.count(v) == lst.count(v), "search", text)
        a.remove(v)
        lst.remove(v)
        from_list(ref, lst)
        return ""
    if what == "reverse":
        a.reverse()
        from_list(ref, lst[::-1])
        return ""
    if what == "eclear":
        a.clear()
        from_list(ref, [])
        return ""
    _, how, src, fail = op
    vals = [value(v) for v in src]
    if how == "self":
        a.extend(a)
        from_list(ref, lst + lst)
        return ""
    if how == "list":
        a.extend(vals)
        from_list(ref, lst + vals)
        return ""

    def gen():
        for j, v in enumerate(vals):
            if j == fail:
                env.fault("source_fails")
                raise SrcFailed
            yield v
        if fail == len(vals):
            env.fault("source_fails")
            raise SrcFailed

    try:
        if how == "iadd":
            a += gen()
            check(a is w.array, "iadd", text)
        else:
            a.extend(gen())
        check(fail is None, "failure-swallowed", text)
    except SrcFailed:
        vals = vals[:fail]
    from_list(ref, lst + vals)
    return "failed" if fail is not None else ""


def prop(w, op, n):
    ref, o, env = w.ref, w.o, w.env
    what = op[0]
    text = f"op {n} {op}"
    if what == "wire":
        return wire(w, text)
    if what == "popitem":
        if not ref.el and not ref.props:
            return refused(w, KeyError, o.popitem, text)
        k, v = o.popitem()
        d = ref.el if isinstance(k, int) else ref.props
        check(k in d and d.pop(k) == v, "popitem", lambda: f"{text}: {k!r}")
        return ""
    if what == "clear":
        o.clear()
        ref.el.clear()
        ref.props.clear()
        return ""
    if what == "update":
        return update(w, op, n)
    k, s = spell(op[1])
    if what == "set":
        v = value(op[2])
        o[s] = v
        put(ref, k, v)
        return ""
    d = ref.el if isinstance(k, int) else ref.props
    if what == "default":
        got = o.setdefault(s, op[2])
        if k not in d:
            put(ref, k, op[2])
        check(got == d[k], "setdefault", lambda: f"{text}: {short(got)}")
        return ""
    if what == "del":
        if op[2] == 2:
            got = o.pop(s, "none")
            check(got == d.pop(k, "none"), "pop", lambda: f"{text}: {short(got)}")
            return ""
        f = (lambda: o.__delitem__(s)) if op[2] == 0 else (lambda: o.pop(s))
        if k not in d:
            return refused(w, KeyError, f, text)
        f()
        del d[k]
        return ""
    raise AssertionError(what)


def update(w, op, n):
    _, how, src, fail, exc, during, at = op
    ref, o, env = w.ref, w.o, w.env
    pairs = [(spell(k), value(v)) for k, v in src]
    fired = []

    def touch(j):
        if during and j == at:
            env.fault("changed_during_update")
            if during == "set":
                o["during"] = 1
                put(ref, "during", 1)
            elif during == "del":
                if ref.el or ref.props:
                    k = next(iter(o))
                    del o[k]
                    (ref.el if isinstance(k, int) else ref.props).pop(k)
            else:
                m = ref.len // 2
                o.array.resize(m)
                ref.len = m
                ref.el = {k: x for k, x in ref.el.items() if k < m}
        if fail is not None and j == fail:
            fired.append(j)
            env.fault("source_fails")
            raise (SrcFailedBase if exc else SrcFailed)(j)
        if j < len(pairs):
            put(ref, pairs[j][0][0], pairs[j][1])

    def gen():
        for j, ((k, sp), v) in enumerate(pairs):
            touch(j)
            yield sp, v
        touch(len(pairs))

    plain = [(sp, v) for (_, sp), v in pairs]
    if how == "pairs":
        o.update(plain)
        for (k, _), v in pairs:
            put(ref, k, v)
        return ""
    if how == "kwargs":
        kw = {k: v for (k, _), v in pairs if isinstance(k, str)}
        o.update((), **kw)
        for k, v in kw.items():
            put(ref, k, v)
        return ""
    if how == "object":
        src_o = JSObject(plain)
        table = Ref()
        for (k, _), v in pairs:
            put(table, k, v)
        o.update(src_o)
        for k in sorted(table.el):
            put(ref, k, table.el[k])
        for k, v in table.props.items():
            put(ref, k, v)
        return ""
    try:
        if how == "gen":
            o.update(gen())
        else:
            o.update(FailMapping([(sp, v) for (_, sp), v in pairs], touch, how))
        check(not fired, "failure-swallowed", f"op {n}")
        return "ok"
    except (SrcFailed, SrcFailedBase):
        return "failed"


def wire(w, text):
    """The table survives being sent and received."""
    ref, o = w.ref, w.o
    if ref.len > SMALL and isinstance(o.array, DenseArrayProperties) or len(ref.el) > 500:
        return "skip"
    if "length" in ref.props and type(o) is JSArray:
        return "skip"
    r = loads(dumps(o))
    check(type(r) is type(o), "wire-type", text)
    want = list(o.items())
    check(list(r.items()) == want, "wire", lambda: f"{text}: {short(list(r.items()))} expected {short(want)}")
    if type(o) is JSArray:
        check(len(r.array) == ref.len, "wire-length", lambda: f"{text}: {len(r.array)} expected {ref.len}")
    check(r == o or type(o) is not JSArray, "wire-equal", text)
    return ""
