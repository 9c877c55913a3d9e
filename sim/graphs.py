"""Value graphs as data: generate, build as Python objects, match decoded values.

A graph is JSON: {"nodes": [[kind, ...], ...], "root": i}.  Child references are
node indexes taken modulo the number of nodes, so that any graph stays valid
when the shrinker removes nodes.  ``Graph`` normalises it (immutable values are
acyclic, set members hashable, ...), ``build`` turns it into Python objects, and
``match`` compares a decoded value with the graph: contents, order, numbers
bit for bit, and identity in both directions.
"""
from __future__ import annotations

import datetime as dt
import math
import random
import re
import struct
from collections import OrderedDict, UserDict, UserList, abc, defaultdict, deque, namedtuple

from core import Violation, short

from v8serialize import SerializationFeature
from v8serialize.constants import ArrayBufferViewTag, JSRegExpFlag
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSDataView,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
    JSUndefined,
)
import v8serialize.jstypes as jst
from v8serialize.jstypes._v8 import V8SharedObjectReference

NONE = ["none"]

VIEW_CLASSES = {
    "b": ("JSInt8Array", 1),
    "B": ("JSUint8Array", 1),
    "C": ("JSUint8ClampedArray", 1),
    "w": ("JSInt16Array", 2),
    "W": ("JSUint16Array", 2),
    "d": ("JSInt32Array", 4),
    "D": ("JSUint32Array", 4),
    "h": ("JSFloat16Array", 2),
    "f": ("JSFloat32Array", 4),
    "F": ("JSFloat64Array", 8),
    "q": ("JSBigInt64Array", 8),
    "Q": ("JSBigUint64Array", 8),
    "?": ("JSDataView", 1),
}
_fmt = {t.value: t for t in ArrayBufferViewTag}


def view_class(t: str):
    from v8serialize.jstypes.jsbuffers import ArrayBufferViewStructFormat as F

    name, size = VIEW_CLASSES[t]
    for f in F:
        if f.view_tag is _fmt[ord(t)]:
            return f.view_type, size
    raise AssertionError(t)


ERR_NAMES = [
    "Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError",
    "URIError", "UriError", "CustomError", "",
]
PYEXC = [ValueError, KeyError, RuntimeError, OSError, ZeroDivisionError]


class MuteError(Exception):
    """An exception which cannot say what happened."""

    def __str__(self):
        raise RuntimeError("no words")


def _far(e):
    raise e


def _near(e):
    _far(e)


def _raised(e):
    try:
        _near(e)
    except BaseException as x:
        return x


def _chained(inner, outer):
    """outer, raised while inner was being handled."""
    try:
        try:
            raise inner
        except BaseException:
            raise outer
    except BaseException as x:
        return x


def make_pyexc(mode: int, text: str) -> BaseException:
    """The exception of a pyexc node: mode // 10 picks how it came about."""
    e = PYEXC[mode % len(PYEXC)](text)
    k = mode // 10
    if k == 1:  # while handling another, itself raised while handling a third
        e = _chained(_chained(KeyError("third"), OSError("second é")), e)
    elif k == 2:  # with notes
        e.add_note("note one")
        e.add_note("note two\nsecond line ☃")
    elif k == 3:
        e = ExceptionGroup(text, [e, _raised(LookupError("member two"))])
    elif k == 4:  # groups in groups, with contexts and notes of their own
        m = _chained(OSError("ctx of member"), TypeError("member deep"))
        m.add_note("note of member")
        e = _chained(KeyError("outer ctx"), BaseExceptionGroup(text, [
            ExceptionGroup("inner group", [e, m]), _raised(SystemExit("leaving"))]))
    elif k == 5:
        e = MuteError(text)
    elif k == 6:
        e = (SyntaxError("bad syntax", ("file.py", 3, 2, "a b c\n", 3, 3)) if mode % 3 else
             UnicodeDecodeError("utf-8", b"ab\xff", 2, 3, "bad byte"))
    elif k == 7:  # the context is not to be told
        e = _chained(OSError("kept quiet"), e)
        e.__suppress_context__ = True
    return _raised(e) if mode % 2 else e


def pyexc_expect(e):
    """(first words of the message or None, what the stack tells, what it does not)."""
    told, untold = [], []

    def walk(x, top=False):
        if isinstance(x, MuteError):
            told.append("MuteError")
        elif isinstance(x, SyntaxError):
            told.append("SyntaxError: bad syntax")
        else:
            lines = str(x).splitlines()
            told.append(type(x).__name__ + (f": {lines[0].rstrip()}" if lines and lines[0].rstrip() else ""))
        for n in getattr(x, "__notes__", ()):
            told.extend(n.split("\n"))
        frames = []
        tb = x.__traceback__
        while tb is not None:
            frames.append(f"    at {tb.tb_frame.f_code.co_name} ({tb.tb_frame.f_code.co_filename}:{tb.tb_lineno}:")
            tb = tb.tb_next
        told.append(frames[::-1])
        for m in getattr(x, "exceptions", ()):
            walk(m, True)
        while top:
            c = x.__context__
            if c is None:
                break
            if x.__suppress_context__:
                if isinstance(c, OSError) and str(c) == "kept quiet":
                    untold.append("kept quiet")
                break
            walk(c)
            x = c

    walk(e, True)
    name = None if isinstance(e, (MuteError, SyntaxError)) else type(e).__name__
    return name, told, untold


def pyexc_wrong(e, message, stack):
    """What a message and a stack fail to say of a Python exception, or None."""
    if not isinstance(message, str):
        return "a message"
    if not isinstance(stack, str):
        return "a stack"
    name, told, untold = pyexc_expect(e)
    if name is not None:
        if message.split("\n")[0].split(":")[0].rstrip() != name:
            return f"message of {name}"
        text = str(e).splitlines()
        if text and text[0].rstrip() not in message:
            return f"message containing {text[0]!r}"
    if not stack.startswith(message):
        return "a stack which begins with the message"
    for t in told:
        at = 0
        for part in t if isinstance(t, list) else [t]:  # the latest call first
            at = stack.find(part, at)
            if at < 0:
                return f"a stack which tells {t!r}"
            at += len(part)
    for t in untold:
        if t in stack:
            return f"a stack which does not tell {t!r}"
    if "exceptions" in dir(e):
        pos = -1
        for i, m in enumerate(e.exceptions, 1):
            at = stack.find(f"↳ {i}: {type(m).__name__}")
            if at <= pos:
                return f"a stack which tells member {i} in its place"
            pos = at
    return None

BUFFER_KINDS = {"bytes", "barr", "mview", "ab", "sab", "abt"}
VIEWABLE = {"bytes", "barr", "ab", "sab", "abt"}
MUTABLE = {"list", "deque", "dict", "set", "obj", "arr", "sparr", "map", "mset",
           "barr", "ab", "err", "pyexc"}
IMM = {"tuple", "fset", "fseq", "fmap", "view", "pyexc", "cust"}
LEAVES = {"int", "flt", "str", "bool", "none", "undef", "hole", "date", "re", "pyre",
          "prim", "shref", "sab", "abt", "bytes", "barr", "mview", "ab"}
HASH_LEAF = {"int", "flt", "str", "bool", "none", "undef", "date", "re", "pyre", "prim",
             "shref", "sab", "abt", "bytes"}
TRACKED = {"list", "tuple", "fseq", "fmap", "deque", "dict", "set", "fset", "obj", "arr", "sparr", "map",
           "mset", "bytes", "barr", "mview", "ab", "sab", "abt", "view", "date", "re",
           "pyre", "err", "pyexc", "shref"}


class Cust:
    """A user type only a custom encode step knows how to write."""

    __slots__ = ("mode", "items")

    def __init__(self, mode, items):
        self.mode = mode
        self.items = items


def cust_step(value, /, ctx, next):
    """Represents Cust as a list or mapping made on the spot (temporaries)."""
    if type(value) is Cust:
        k = CUST_MODES[value.mode % len(CUST_MODES)]
        if k == "list":
            return next(list(value.items))
        if k == "tuple":
            return next(tuple(value.items))
        if k == "jsarray":
            return next(JSArray(value.items))
        if k == "deque":
            return next(deque(value.items))
        if k == "jsobject":
            return next(JSObject((f"t{i}", x) for i, x in enumerate(value.items)))
        if k == "jsmap":
            return next(JSMap((f"t{i}", x) for i, x in enumerate(value.items)))
        if k == "dict":
            return next({f"t{i}": x for i, x in enumerate(value.items)})
        if k == "bytes":
            return next(cust_bytes(value))
        if k == "bytearray":
            return next(bytearray(cust_bytes(value)))
        if k == "buffer":
            return next(JSArrayBuffer(cust_bytes(value)))
        if k == "view":
            return next(view_class("B")[0](JSArrayBuffer(cust_bytes(value))))
        if k == "error":
            return next(JSErrorData(f"t{len(value.items)}"))
        if k == "regexp":
            return next(JSRegExp(f"t{value.mode}x{len(value.items)}"))
        if k == "date":
            return next(utc(value.mode * 10**6))
    return next(value)


CUST_MODES = ["list", "tuple", "jsarray", "deque", "jsobject", "jsmap", "dict", "bytes",
              "bytearray", "buffer", "view", "error", "regexp", "date"]


def cust_bytes(value) -> bytes:
    return bytes([value.mode % 256]) * len(value.items)


def unhex_float(s: str) -> float:
    return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}.get(s) if s in (
        "nan", "inf", "-inf") else float.fromhex(s)


def hex_float(f: float) -> str:
    return f.hex() if math.isfinite(f) else ("nan" if f != f else ("inf" if f > 0 else "-inf"))


def norm_key(k):
    """ECMAScript property key -> array index (int) or string."""
    if isinstance(k, str):
        if k == "0" or (re.fullmatch(r"[1-9][0-9]{0,9}", k)):
            i = int(k)
            return i if i < 2**32 - 1 else k
        return k
    if isinstance(k, float):
        if k.is_integer():
            k = int(k)
        else:
            return repr(k)
    if 0 <= k < 2**32 - 1:
        return k
    return str(k)


def raw_key(k):
    """JSON form of a raw property key -> Python."""
    if isinstance(k, dict):
        return unhex_float(k["f"])
    return k


def dbits(f: float) -> bytes:
    return b"nan" if f != f else struct.pack("<d", f)


def utc(us: int) -> dt.datetime:
    return dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=us)


# Classes of a user's own, which are written as what they are derived from or
# as the collection protocol they follow.
class IntSub(int):
    pass


class FloatSub(float):
    pass


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


class BytearraySub(bytearray):
    pass


class DateSub(dt.datetime):
    pass


class ListSub(list):
    pass


class DequeSub(deque):
    pass


class DictSub(dict):
    pass


class SetSub(set):
    pass


class TupleSub(tuple):
    pass


class FrozensetSub(frozenset):
    pass


class ObjSub(JSObject):
    pass


class ArrSub(JSArray):
    pass


class MapSub(JSMap):
    pass


class MsetSub(JSSet):
    pass


class UserSeq(abc.MutableSequence):
    """Compares by identity, as a user's class does which doesn't say otherwise."""

    def __init__(self):
        self.items = []

    def __getitem__(self, i):
        return self.items[i]

    def __setitem__(self, i, v):
        self.items[i] = v

    def __delitem__(self, i):
        del self.items[i]

    def __len__(self):
        return len(self.items)

    def insert(self, i, v):
        self.items.insert(i, v)


class UserColl:
    """Only a Collection: can't be indexed."""

    def __init__(self):
        self.items = []

    def extend(self, xs):
        self.items.extend(xs)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __contains__(self, x):
        return x in self.items


class UserMap(abc.MutableMapping):
    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class UserSet(abc.MutableSet):
    def __init__(self):
        self.d = {}

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def add(self, x):
        self.d.setdefault(x)

    def discard(self, x):
        self.d.pop(x, None)


class FrozenSeq(abc.Sequence):
    """Immutable and hashable, equal to others with equal items."""

    def __init__(self, items):
        self.items = tuple(items)

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)

    def __hash__(self):
        return hash(self.items)

    def __eq__(self, other):
        return isinstance(other, FrozenSeq) and self.items == other.items


class FrozenMap(abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __eq__(self, other):
        return isinstance(other, FrozenMap) and self.d == other.d


def _date_sub(v):
    return DateSub(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond,
                   v.tzinfo, fold=v.fold)


FLAVOURS = {
    "int": [IntSub], "flt": [FloatSub], "str": [StrSub], "bytes": [BytesSub],
    "barr": [BytearraySub], "date": [_date_sub],
    "list": [ListSub, UserList, UserSeq, UserColl], "deque": [DequeSub],
    "dict": [DictSub, OrderedDict, lambda: defaultdict(list), UserDict, UserMap],
    "set": [SetSub, UserSet],
    "obj": [ObjSub], "arr": [ArrSub], "sparr": [ArrSub], "map": [MapSub], "mset": [MsetSub],
}
_named: dict = {}


def sub_key(x):
    """``x`` as an instance of a user's subclass of its type."""
    if isinstance(x, bool):
        return x
    return (StrSub if isinstance(x, str) else FloatSub if isinstance(x, float) else IntSub)(x)


def flavoured_tuple(v: tuple, f: float):
    if f < 0.5:
        return TupleSub(v)
    n = len(v)
    if n not in _named:
        _named[n] = namedtuple(f"T{n}", [f"f{i}" for i in range(n)])
    return _named[n](*v)


class Graph:
    def __init__(self, spec) -> None:
        nodes = spec["nodes"] or [NONE]
        self.n = n = len(nodes)
        self.root = spec["root"] % n
        self.nodes = nodes = [list(x) if x else ["none"] for x in nodes]
        self._hash_memo: dict[int, bool] = {}
        # pass 1: resolve references
        for i, nd in enumerate(nodes):
            k = nd[0]
            if k in ("list", "deque", "tuple", "fseq", "mset"):
                nd[1] = [self._child(i, r) for r in nd[1]]
            elif k in ("set", "fset"):
                nd[1] = [self._child(i, r) for r in nd[1]]
            elif k in ("dict", "map", "fmap"):
                nd[1] = [[self._child(i, a), self._child(i, b)] for a, b in nd[1]]
            elif k == "obj":
                nd[1] = [[a, self._child(i, b)] for a, b in nd[1]]
            elif k == "arr":
                nd[1] = [self._child(i, r) for r in nd[1]]
                nd[2] = [[a, self._child(i, b)] for a, b in nd[2]]
            elif k == "sparr":
                nd[2] = [[a, self._child(i, b)] for a, b in nd[2]]
                nd[3] = [[a, self._child(i, b)] for a, b in nd[3]]
            elif k == "err":
                nd[5] = None if nd[5] is None else self._child(i, nd[5])
            elif k == "pyexc":
                c = None if nd[3] is None else self._child(i, nd[3])
                nd[3] = c if c is not None and c >= 0 and nodes[c][0] == "pyexc" else None
            elif k == "view":
                c = nd[2] % n
                nd[2] = c if nodes[c][0] in VIEWABLE else None
                if nd[2] is None:
                    nodes[i] = ["none"]
            elif k == "cust":
                # children must not lead back (it has no identity to refer to)
                nd[2] = [
                    c for c in (self._child(i, r) for r in nd[2])
                    if c >= 0 and nodes[c][0] in LEAVES and nodes[c][0] != "hole"
                ]
            elif k not in LEAVES:
                nodes[i] = ["none"]
        # pass 2: where only some kinds may stand
        for i, nd in enumerate(nodes):
            k = nd[0]
            if k in ("set", "fset"):
                nd[1] = [c for c in nd[1] if self.hashable(c)]
            elif k in ("dict", "fmap"):
                nd[1] = [
                    [a, self._nohole(b)] for a, b in nd[1] if self.hashable(a)
                ]
            elif k == "map":
                nd[1] = [[self._nohole(a), self._nohole(b)] for a, b in nd[1]]
            elif k == "mset":
                nd[1] = [self._nohole(a) for a in nd[1]]
            elif k == "obj":
                nd[1] = [[a, self._nohole(b)] for a, b in nd[1]]
            elif k == "arr":
                nd[2] = [[a, self._nohole(b)] for a, b in nd[2]
                         if isinstance(norm_key(raw_key(a)), str)]
            elif k == "sparr":
                nd[1] = nd[1] % (2**32)
                nd[2] = [[a % max(1, nd[1]), self._nohole(b)] for a, b in nd[2]
                         if nd[1] and self._kind(b) != "hole"]
                nd[3] = [[a, self._nohole(b)] for a, b in nd[3]
                         if isinstance(norm_key(raw_key(a)), str)]
            elif k == "err":
                nd[5] = None if nd[5] is None else self._nohole(nd[5])
        if self._kind(self.root) == "hole":
            self.nodes[self.root] = ["none"]
        self.mk: dict = {}  # classes to build containers with
        self.fl = spec.get("fl")  # seed of the mix of user classes, or None
        self.vals: list = []
        self.entries: dict[int, list] = {}

    def _kind(self, c: int) -> str:
        return "none" if c < 0 else self.nodes[c][0]

    def _nohole(self, c: int) -> int:
        return -1 if self._kind(c) == "hole" else c

    def _child(self, i: int, r: int) -> int:
        """-1 stands for None."""
        c = r % self.n
        if self.nodes[i][0] in IMM and self.nodes[c][0] in IMM and c <= i:
            return -1
        if self.nodes[i][0] == "fset" and self.nodes[c][0] in IMM and c <= i:
            return -1
        return c

    def hashable(self, c: int) -> bool:
        if c < 0:
            return True
        k = self.nodes[c][0]
        if k in HASH_LEAF:
            return True
        if k in ("tuple", "fset", "fseq"):
            if c not in self._hash_memo:
                self._hash_memo[c] = False
                self._hash_memo[c] = all(
                    self.hashable(x) and self._kind(x) != "hole"
                    for x in self.nodes[c][1]
                )
            return self._hash_memo[c]
        return False

    # -- building -----------------------------------------------------------

    def build(self):
        """Fresh Python objects for every node; returns the root."""
        n = self.n
        vals: list = [None] * n
        self.vals = vals
        done = [False] * n
        nodes = self.nodes
        flav = [None] * n
        if self.fl is not None:
            fr = random.Random(self.fl)
            some = fr.choice([0.2, 0.5, 1.0])
            flav = [fr.random() if fr.random() < some else None for _ in nodes]
        for i, nd in enumerate(nodes):  # leaves and shells
            k = nd[0]
            v = None
            ok = True
            if flav[i] is not None and k in FLAVOURS and k not in self.mk:
                opts = FLAVOURS[k]
                made = opts[int(flav[i] * len(opts))]
            else:
                made = None
            if k == "int":
                v = nd[1]
            elif k == "flt":
                v = unhex_float(nd[1])
            elif k == "str":
                v = nd[1]
            elif k == "bool":
                v = bool(nd[1])
            elif k == "none":
                v = None
            elif k == "undef":
                v = JSUndefined
            elif k == "hole":
                v = JSHole
            elif k == "date":
                v = utc(nd[1])
                off = nd[2]
                if off is None:
                    v = v.astimezone().replace(tzinfo=None)
                else:
                    v = v.astimezone(dt.timezone(dt.timedelta(minutes=off)))
            elif k == "re":
                v = JSRegExp(nd[1], JSRegExpFlag(self.re_flags(nd[2])))
            elif k == "pyre":
                v = re.compile(nd[1], nd[2] & (re.I | re.M | re.S | re.A).value)
            elif k == "prim":
                x = nd[1]
                if isinstance(x, dict):
                    x = unhex_float(x["f"])
                if flav[i] is not None:
                    x = sub_key(x)
                v = JSPrimitiveObject(x)
            elif k == "shref":
                v = V8SharedObjectReference(nd[1] % 2**32)
            elif k == "sab":
                v = JSSharedArrayBuffer(nd[1] % 2**32)
            elif k == "abt":
                v = JSArrayBufferTransfer(nd[1] % 2**32)
            elif k == "bytes":
                v = bytes.fromhex(nd[1])
            elif k == "barr":
                v = bytearray.fromhex(nd[1])
            elif k == "mview":
                v = self.make_mview(nd)
            elif k == "ab":
                data = bytes.fromhex(nd[1])
                v = JSArrayBuffer(
                    data,
                    max_byte_length=None if nd[2] is None else len(data) + nd[2] % 64,
                )
            elif k == "list":
                v = (made or self.mk.get("list", list))()
            elif k == "deque":
                v = (made or self.mk.get("deque", deque))()
            elif k == "dict":
                v = (made or self.mk.get("dict", dict))()
            elif k == "set":
                v = (made or self.mk.get("set", set))()
            elif k == "obj":
                v = (made or self.mk.get("obj", JSObject))()
            elif k in ("arr", "sparr"):
                v = (made or self.mk.get("arr", JSArray))()
            elif k == "map":
                v = (made or self.mk.get("map", JSMap))()
            elif k == "mset":
                v = (made or self.mk.get("mset", JSSet))()
            elif k == "err":
                cls = JSError if nd[1] % 2 else JSErrorData
                v = cls(nd[3], name=ERR_NAMES[nd[2] % len(ERR_NAMES)], stack=nd[4])
            else:
                ok = False
            if made is not None and k in ("int", "flt", "str", "bytes", "barr", "date"):
                v = made(v)
            vals[i] = v
            done[i] = ok
        fsets: list = []
        for i in reversed(range(n)):  # immutables: children have higher indexes
            if done[i]:
                continue
            nd = nodes[i]
            k = nd[0]
            if k == "tuple":
                vals[i] = tuple(self.val(c) for c in nd[1])
                if flav[i] is not None:
                    vals[i] = flavoured_tuple(vals[i], flav[i])
            elif k == "fseq":
                vals[i] = FrozenSeq(self.val(c) for c in nd[1])
            elif k == "fmap":
                d: dict = {}
                self.entries[i] = ents = []
                for a, b in nd[1]:
                    key = self.val(a)
                    if key == key and not isinstance(key, JSPrimitiveObject) and key not in d:
                        if not self._mergeable(key, d):
                            d[key] = self.val(b)
                            ents.append((a, b))
                vals[i] = FrozenMap(d)
            elif k == "fset":
                keep: list = []
                for c in nd[1]:
                    if self._kind(c) != "prim" and not self._mergeable(
                        self.val(c), [self.val(x) for x in keep]
                    ):
                        keep.append(c)
                nd[1] = keep
                v = frozenset(self.val(c) for c in nd[1])
                if flav[i] is not None and flav[i] < 0.7:
                    v = FrozensetSub(v)
                # equal frozensets may be merged by the encoder; those which
                # iterate in different orders are kept out of the graphs
                if any(x == v and content_sig(x) == content_sig(v)
                       and [*map(id, x)] != [*map(id, v)] for x in fsets):
                    nd[1] = []
                    v = frozenset()
                fsets.append(v)
                vals[i] = v
            elif k == "view":
                vals[i] = self.make_view(nd)
            elif k == "pyexc":
                e = make_pyexc(nd[1], nd[2])
                if nd[3] is not None:
                    e.__cause__ = self.val(nd[3])
                vals[i] = e
            elif k == "cust":
                vals[i] = Cust(nd[1], [self.val(c) for c in nd[2]])
            done[i] = True
        for i, nd in enumerate(nodes):  # fill mutable containers
            k = nd[0]
            v = vals[i]
            if k in ("list", "deque"):
                v.extend(self.val(c) for c in nd[1])
            elif k == "dict":
                ents = []
                nan = False
                for a, b in nd[1]:
                    key = self.val(a)
                    if isinstance(key, float) and key != key:
                        if nan:
                            continue
                        nan = True
                    if isinstance(key, JSPrimitiveObject):
                        continue
                    if key in v or self._mergeable(key, v):
                        continue
                    v[key] = self.val(b)
                    ents.append((a, b))
                self.entries[i] = ents
            elif k == "set":
                for a in nd[1]:
                    key = self.val(a)
                    if (isinstance(key, JSPrimitiveObject) or key in v
                            or self._mergeable(key, v)):
                        continue
                    if (isinstance(key, float) and key != key
                            and any(x != x for x in v if isinstance(x, float))):
                        continue
                    v.add(key)
            elif k == "obj":
                for j, (a, b) in enumerate(nd[1]):
                    v[sub_key(raw_key(a)) if flav[i] and j % 2 else raw_key(a)] = self.val(b)
            elif k == "arr":
                for c in nd[1]:
                    v.array.append(self.val(c))
                for a, b in nd[2]:
                    v[raw_key(a)] = self.val(b)
            elif k == "sparr":
                if nd[1]:
                    v[nd[1] - 1] = JSHole
                for a, b in nd[2]:
                    v[a] = self.val(b)
                for a, b in nd[3]:
                    v[raw_key(a)] = self.val(b)
            elif k == "map":
                ents = {}
                for a, b in nd[1]:
                    key = self.val(a)
                    if isinstance(key, JSPrimitiveObject):
                        continue
                    if self._kind(a) == "cust" or self._mergeable(key, v):
                        continue
                    v[key] = self.val(b)
                    ents.setdefault(svz(key), {})[id(key)] = a
                    ents[svz(key)]["val"] = b
                # which of 0.0 and -0.0 a map keeps is checked by C13
                self.entries[i] = [
                    (e.get(id(key), next(iter(e.values()))), e["val"])
                    for e, key in zip(ents.values(), v)
                ]
            elif k == "mset":
                ents = {}
                for a in nd[1]:
                    key = self.val(a)
                    if isinstance(key, JSPrimitiveObject) or self._kind(a) == "cust":
                        continue
                    if self._mergeable(key, v):
                        continue
                    v.add(key)
                    ents.setdefault(svz(key), {})[id(key)] = a
                self.entries[i] = [
                    e.get(id(key), next(iter(e.values())))
                    for e, key in zip(ents.values(), v)
                ]
            elif k == "err":
                v.cause = None if nd[5] is None else self.val(nd[5])
        # members of Python sets in the order they iterate
        for i, nd in enumerate(nodes):
            if nd[0] in ("set", "fset"):
                by_id = {}
                for c in nd[1]:
                    by_id.setdefault(id(self.val(c)), c)
                out = []
                for x in vals[i]:
                    out.append(by_id[id(x)])
                self.entries[i] = out
        return vals[self.root]

    @staticmethod
    def _mergeable(key, members) -> bool:
        """Equal immutable objects may be merged by the encoder, which makes
        them one member of a JSSet/JSMap: keep those out of the graphs."""
        if key is None or isinstance(key, (bool, int, float, str)):
            return False
        if type(key).__hash__ is None:
            return False
        if isinstance(key, dt.datetime):  # aware and naive ones decode alike
            return any(
                isinstance(x, dt.datetime) and x is not key
                and abs(x.timestamp() - key.timestamp()) < 0.01
                for x in members
            )
        if isinstance(key, (re.Pattern, JSRegExp)):
            def src(p):
                return p.source if isinstance(p, JSRegExp) else p.pattern or "(?:)"

            return any(
                isinstance(x, (re.Pattern, JSRegExp)) and x is not key and src(x) == src(key)
                for x in members
            )
        return any(
            x is not key and type(x) is type(key) and x == key for x in members
        )

    @staticmethod
    def re_flags(f: int) -> int:
        f &= 0x1FF
        if f & 16 and f & 256:
            f &= ~256
        return f

    @staticmethod
    def make_mview(nd):
        data = bytes.fromhex(nd[1])
        mode = nd[2] % 5
        if mode == 0:
            return memoryview(data)
        if mode == 1:
            return memoryview(bytearray(data))
        if mode == 2:
            return memoryview(bytearray(data + data)).cast("H")
        if mode == 3:
            return memoryview(bytearray(data))[::2]
        return memoryview(data)[1:]

    def buffer_bytes(self, c: int) -> bytes:
        nd = self.nodes[c]
        if nd[0] == "mview":
            return self.make_mview(nd).tobytes()
        if nd[0] in ("sab", "abt"):
            return b""
        return bytes.fromhex(nd[1])

    def view_range(self, nd):
        """(item_offset, item_length|None, byte_offset, byte_length) of a view node."""
        _, size = VIEW_CLASSES[nd[1]]
        if self.nodes[nd[2]][0] in ("sab", "abt"):
            # the length of the memory isn't known: any range may be given
            off, ln = nd[3] % 50, None if nd[4] is None else nd[4] % 50
            return off, ln, off * size, (ln or 0) * size
        total = len(self.buffer_bytes(nd[2])) // size
        off = nd[3] % (total + 1)
        ln = None if nd[4] is None else nd[4] % (total - off + 1)
        items = total - off if ln is None else ln
        return off, ln, off * size, items * size

    def make_view(self, nd):
        cls, size = view_class(nd[1])
        off, ln, _, _ = self.view_range(nd)
        return cls(self.val(nd[2]), off, ln)

    def val(self, c: int):
        return None if c < 0 else self.vals[c]

    # -- prediction -----------------------------------------------------------

    def predict(self, features: SerializationFeature, node_views=False) -> str:
        """'ok' or the reason serialization must be refused, in encode order."""
        circ = SerializationFeature.CircularErrorCause in features
        f16 = SerializationFeature.Float16Array in features
        vsets = SerializationFeature.RegExpUnicodeSets in features
        state: dict[int, int] = {}  # 1 pending error cause, 2 recorded
        stack = [("v", self.root)]
        while stack:
            op, c = stack.pop()
            if op == "end":
                state[c] = 2
                continue
            if c < 0:
                continue
            nd = self.nodes[c]
            k = nd[0]
            if c in state:
                if state[c] == 1:
                    return "illegal-cycle"
                continue
            if k == "view" and nd[1] == "h" and not f16:
                return "float16"
            if k == "re" and self.re_flags(nd[2]) & 256 and not vsets:
                return "unicode-sets"
            if k in TRACKED:
                state[c] = 2
            if k == "err" and nd[5] is not None and self.val(nd[5]) is not None and not circ:
                state[c] = 1
                stack.append(("end", c))
                stack.append(("v", nd[5]))
                continue
            if k == "view" and node_views and nd[1] != "h":
                continue
            for x in reversed(list(self.children(c))):
                stack.append(("v", x))
        return "ok"

    def children(self, c: int):
        """Child nodes in serialization order (needs build())."""
        if c < 0:
            return
        nd = self.nodes[c]
        k = nd[0]
        if k in ("list", "deque", "tuple", "fseq"):
            yield from nd[1]
        elif k in ("set", "fset", "mset"):
            yield from self.entries.get(c, ())
        elif k in ("dict", "map", "fmap"):
            for a, b in self.entries.get(c, ()):
                yield a
                yield b
        elif k == "obj":
            for _, b in obj_entries(nd[1]):
                yield b
        elif k in ("arr", "sparr"):
            _, els, props = self.array_model(c)
            for _, b in els:
                yield b
            for _, b in props:
                yield b
        elif k == "err":
            if nd[5] is not None:
                yield nd[5]
        elif k == "view":
            yield nd[2]
        elif k == "cust":
            if CUST_MODES[nd[1] % len(CUST_MODES)] in (
                "list", "tuple", "jsarray", "deque", "jsobject", "jsmap", "dict"
            ):
                yield from nd[2]

    def array_model(self, c: int):
        """(length, [(index, node)...], [(key, node)...])"""
        nd = self.nodes[c]
        if nd[0] == "arr":
            els = [(i, x) for i, x in enumerate(nd[1]) if self._kind(x) != "hole"]
            return len(nd[1]), els, obj_entries(nd[2])
        els: dict[int, int] = {}
        for a, b in nd[2]:
            els[a] = b
        return nd[1], sorted(els.items()), obj_entries(nd[3])

    def reachable(self):
        seen = set()
        todo = [self.root]
        while todo:
            c = todo.pop()
            if c < 0 or c in seen:
                continue
            seen.add(c)
            todo.extend(self.children(c))
        return seen

    # -- matching -----------------------------------------------------------

    def match(self, decoded, *, features=SerializationFeature(0), prop="",
              tz_check=None, root=None, ident=True, types=None, node_views=False) -> int:
        """Raise Violation unless decoded is what the graph must decode to.

        Returns the number of nodes compared.
        """
        m = _Matcher(self, features, prop, tz_check, ident, types or {})
        m.node_views = node_views
        m.run(self.root if root is None else root, decoded)
        return m.count


def obj_entries(pairs):
    """Effective (key, node) entries of a JSObject in JavaScript order."""
    d: dict = {}
    for a, b in pairs:
        d[norm_key(raw_key(a))] = b
    ints = sorted(k for k in d if isinstance(k, int))
    return [(k, d[k]) for k in ints] + [(k, b) for k, b in d.items() if isinstance(k, str)]


def svz(v):
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        if v != v:
            return ("nan",)
        return ("n", v)
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, bytes):
        return ("y", v)
    if v is None or v is JSUndefined:
        return ("c", str(v))
    return ("o", id(v))


def pyre_flags(fl: int, features) -> int:
    want = 0
    want |= 2 if fl & re.I.value else 0
    want |= 4 if fl & re.M.value else 0
    want |= 32 if fl & re.S.value else 0
    # str patterns are unicode; readers without the v flag get u
    if not fl & re.A.value:
        want |= 256 if SerializationFeature.RegExpUnicodeSets in features else 16
    return want


class _Matcher:
    def __init__(self, g: Graph, features, prop, tz_check, ident, types):
        self.g = g
        self.features = features
        self.tz_check = tz_check
        self.ident = ident
        self.types = types
        self.fwd: dict[int, object] = {}  # node -> decoded
        self.back: dict[int, int] = {}  # id(decoded) -> mutable node
        self.count = 0
        self.node_views = False
        self.todo: list = []

    def fail(self, kind, path, want, got):
        raise Violation(kind, f"at {self.pathstr(path)}: expected {want}, got {short(got)}")

    @staticmethod
    def pathstr(path) -> str:
        out = []
        while path is not None:
            path, step = path
            out.append(str(step))
        return "/".join(reversed(out)) or "root"

    def run(self, node, decoded) -> None:
        self.todo.append((node, decoded, None))
        while self.todo:
            c, v, path = self.todo.pop()
            self.one(c, v, path)

    def one(self, c, v, path) -> None:
        g = self.g
        self.count += 1
        nd = NONE if c < 0 else g.nodes[c]
        k = nd[0]
        if k in TRACKED:
            if c in self.fwd:
                if self.ident and self.fwd[c] is not v:
                    self.fail("identity-lost", path, f"the same object as the other place holding node {c} ({k})", v)
                if self.ident:
                    return
                if (c, id(v)) in self.back:
                    return
            self.fwd.setdefault(c, v)
            if not self.ident:
                self.back[(c, id(v))] = c
            elif k in MUTABLE:
                o = self.back.setdefault(id(v), c)
                if o != c:
                    self.fail("identity-merged", path, f"an object distinct from node {o} ({g.nodes[o][0]})", v)
        getattr(self, "m_" + k)(nd, c, v, path)

    # leaves
    def m_int(self, nd, c, v, path):
        x = nd[1]
        ok = type(v) in (int, float) and v == x
        if not -(2**53) < x < 2**53 and type(v) is not int:
            ok = False
        if not ok:
            self.fail("value", path, f"int {short(x, 80)}", v)

    def m_flt(self, nd, c, v, path):
        x = unhex_float(nd[1])
        if type(v) is not float or dbits(v) != dbits(x):
            self.fail("value", path, f"float {x!r}", v)

    def m_str(self, nd, c, v, path):
        if type(v) is not str or v != nd[1]:
            self.fail("value", path, f"str {short(nd[1], 80)}", v)

    def m_bool(self, nd, c, v, path):
        if v is not bool(nd[1]):
            self.fail("value", path, f"{bool(nd[1])}", v)

    def m_none(self, nd, c, v, path):
        if v is not None:
            self.fail("value", path, "None", v)

    def m_undef(self, nd, c, v, path):
        if v is not JSUndefined:
            self.fail("value", path, "JSUndefined", v)

    def m_hole(self, nd, c, v, path):
        if v is not JSHole:
            self.fail("value", path, "JSHole", v)

    def m_date(self, nd, c, v, path):
        if not isinstance(v, dt.datetime):
            self.fail("value", path, "a datetime", v)
        if self.tz_check:
            self.tz_check(nd, v, self.pathstr(path))
            return
        want = nd[1] / 1e6
        if abs(v.timestamp() - want) > 0.001:
            self.fail("date", path, f"instant {want}", v)

    def m_re(self, nd, c, v, path):
        src = nd[1] or "(?:)"
        fl = g_flags = Graph.re_flags(nd[2])
        if type(v) is not JSRegExp or v.source != src or int(v.flags) != fl:
            self.fail("value", path, f"JSRegExp {src!r} flags {g_flags}", v)

    def m_pyre(self, nd, c, v, path):
        want = pyre_flags(nd[2], self.features)
        if (type(v) is not JSRegExp or v.source != (nd[1] or "(?:)")
                or int(v.flags) != want):
            self.fail("value", path, f"JSRegExp {nd[1]!r} flags {want}", v)

    def m_prim(self, nd, c, v, path):
        x = nd[1]
        if isinstance(x, dict):
            x = unhex_float(x["f"])
        if isinstance(x, bool):
            ok = v is x
        elif isinstance(x, float):
            ok = type(v) is float and dbits(v) == dbits(x)
        elif isinstance(x, int):
            ok = type(v) in (int, float) and v == x
        else:
            ok = type(v) is str and v == x
        if not ok:
            self.fail("value", path, f"primitive {short(x, 80)}", v)

    def m_shref(self, nd, c, v, path):
        if type(v) is not V8SharedObjectReference or v.shared_value_id != nd[1] % 2**32:
            self.fail("value", path, f"V8SharedObjectReference({nd[1]})", v)

    def m_sab(self, nd, c, v, path):
        if type(v) is not JSSharedArrayBuffer or v.buffer_id != nd[1] % 2**32:
            self.fail("value", path, f"JSSharedArrayBuffer({nd[1]})", v)

    def m_abt(self, nd, c, v, path):
        if type(v) is not JSArrayBufferTransfer or v.transfer_id != nd[1] % 2**32:
            self.fail("value", path, f"JSArrayBufferTransfer({nd[1]})", v)

    def _buffer(self, c, v, path, max_len=None):
        want = self.g.buffer_bytes(c)
        if type(v) is not JSArrayBuffer or bytes(v.data) != want:
            self.fail("value", path, f"JSArrayBuffer({short(want, 80)})", v)
        resizable = (
            max_len is not None
            and SerializationFeature.ResizableArrayBuffers in self.features
        )
        if v.resizable != resizable or v.max_byte_length != (
            max_len if resizable else len(want)
        ):
            self.fail("value", path, f"resizable={resizable} max={max_len}", v)

    def m_bytes(self, nd, c, v, path):
        self._buffer(c, v, path)

    m_barr = m_mview = m_bytes

    def m_ab(self, nd, c, v, path):
        self._buffer(
            c, v, path, None if nd[2] is None else len(nd[1]) // 2 + nd[2] % 64
        )

    def m_view(self, nd, c, v, path):
        g = self.g
        cls, size = view_class(nd[1])
        if not isinstance(v, cls):
            self.fail("value", path, cls.__name__, v)
        off, ln, boff, blen = g.view_range(nd)
        if self.node_views and nd[1] != "h":
            # written as a Node.js host object: the viewed bytes alone
            b = v.backing_buffer
            want = g.buffer_bytes(nd[2])[boff : boff + blen]
            blen = len(want)
            if (type(b) is not JSArrayBuffer or bytes(b.data) != want or b.resizable
                    or v.byte_offset != 0 or v.byte_length != blen or v.is_length_tracking):
                self.fail("value", path, f"view of its own {short(want, 80)}", v)
            return
        bk = g.nodes[nd[2]]
        tracking = (
            bk[0] == "ab" and bk[2] is not None and ln is None
            and SerializationFeature.ResizableArrayBuffers in self.features
        )
        if bk[0] in ("sab", "abt"):
            if (v.item_offset, v.item_length) != (off, ln or 0) or v.byte_length or v.is_length_tracking:
                self.fail("value", path, f"view of items {off}+{ln or 0}", v)
            return
        if v.byte_length != blen or (blen or not v.is_in_range or True) and v.byte_offset != boff:
            # views of immutable data may legitimately be merged with an equal one
            want = g.buffer_bytes(nd[2])[boff : boff + blen]
            if not (bk[0] == "bytes" and v.byte_length == blen
                    and bytes(v.get_buffer_as_memoryview()) == want):
                self.fail("value", path, f"view of bytes {boff}+{blen}", v)
            return
        want = g.buffer_bytes(nd[2])[boff : boff + blen]
        if bytes(v.get_buffer_as_memoryview()) != want:
            self.fail("value", path, f"view of {short(want, 80)}", v)
        if v.is_length_tracking != tracking:
            self.fail("value", path, f"is_length_tracking={tracking}", v)
        if bk[0] == "bytes":
            # merging equal immutable views may also replace the buffer
            b = v.backing_buffer
            if type(b) is not JSArrayBuffer:
                self.fail("value", path, "a JSArrayBuffer backing", b)
            return
        self.todo.append((nd[2], v.backing_buffer, (path, "backing_buffer")))

    # containers
    def _array(self, c, v, path, length, els, props):
        if type(v) is not JSArray:
            self.fail("value", path, "JSArray", v)
        if len(v.array) != length:
            self.fail("value", path, f"array of length {length}", v)
        got = list(v.items())
        want = els + props
        if [k for k, _ in got] != [k for k, _ in want]:
            self.fail("value", path, f"keys {short([k for k, _ in want], 200)}",
                      [k for k, _ in got])
        if v.array.elements_used != len(els):
            self.fail("value", path, f"elements_used {len(els)}", v.array.elements_used)
        for (k, x), (_, y) in zip(want, got):
            self.todo.append((x, y, (path, k)))

    def m_list(self, nd, c, v, path):
        els = [(i, x) for i, x in enumerate(nd[1]) if self.g._kind(x) != "hole"]
        self._array(c, v, path, len(nd[1]), els, [])

    m_tuple = m_deque = m_fseq = m_list

    def m_arr(self, nd, c, v, path):
        self._array(c, v, path, *self.g.array_model(c))

    m_sparr = m_arr

    def m_cust(self, nd, c, v, path):
        k = CUST_MODES[nd[1] % len(CUST_MODES)]
        n = len(nd[2])
        if k in ("list", "tuple", "jsarray", "deque"):
            els = list(enumerate(nd[2]))
            self._array(c, v, path, len(els), els, [])
        elif k in ("jsobject", "jsmap", "dict"):
            if type(v) is not (JSObject if k == "jsobject" else self.types.get("map", JSMap)):
                self.fail("value", path, k, v)
            got = list(v.items())
            if [a for a, _ in got] != [f"t{i}" for i in range(n)]:
                self.fail("value", path, f"{n} entries", v)
            for x, (a, y) in zip(nd[2], got):
                self.todo.append((x, y, (path, a)))
        elif k in ("bytes", "bytearray", "buffer", "view"):
            b = v
            if k == "view":
                if type(v) is not view_class("B")[0]:
                    self.fail("value", path, "JSUint8Array", v)
                b = v.backing_buffer
            if type(b) is not JSArrayBuffer or bytes(b.data) != bytes([nd[1] % 256]) * n:
                self.fail("value", path, f"{n} bytes", v)
        elif k == "error":
            if type(v) is not self.types.get("err", JSError) or v.message != f"t{n}":
                self.fail("value", path, f"error t{n}", v)
        elif k == "regexp":
            if type(v) is not JSRegExp or v.source != f"t{nd[1]}x{n}":
                self.fail("value", path, f"regexp t{nd[1]}x{n}", v)
        elif k == "date":
            if not isinstance(v, dt.datetime) or abs(v.timestamp() - nd[1]) > 0.001:
                self.fail("value", path, f"date {nd[1]}", v)

    def m_obj(self, nd, c, v, path):
        if type(v) is not JSObject:
            self.fail("value", path, "JSObject", v)
        want = obj_entries(nd[1])
        got = list(v.items())
        if [k for k, _ in got] != [k for k, _ in want]:
            self.fail("value", path, f"keys {short([k for k, _ in want], 200)}",
                      [k for k, _ in got])
        for (k, x), (_, y) in zip(want, got):
            self.todo.append((x, y, (path, k)))

    def m_dict(self, nd, c, v, path):
        if type(v) is not self.types.get("map", JSMap):
            self.fail("value", path, "JSMap", v)
        want = self.g.entries[c]
        got = list(v.items())
        if len(want) != len(got):
            self.fail("value", path, f"{len(want)} map entries", v)
        for i, ((a, b), (x, y)) in enumerate(zip(want, got)):
            self.todo.append((a, x, (path, f"key{i}")))
            self.todo.append((b, y, (path, f"val{i}")))

    m_map = m_fmap = m_dict

    def m_set(self, nd, c, v, path):
        if type(v) is not JSSet:
            self.fail("value", path, "JSSet", v)
        want = self.g.entries[c]
        got = list(v)
        if len(want) != len(got):
            self.fail("value", path, f"{len(want)} set members", v)
        for i, (a, x) in enumerate(zip(want, got)):
            self.todo.append((a, x, (path, f"member{i}")))

    m_fset = m_mset = m_set

    def m_err(self, nd, c, v, path):
        if type(v) is not self.types.get("err", JSError):
            self.fail("value", path, "JSError", v)
        name = ERR_NAMES[nd[2] % len(ERR_NAMES)]
        want_name = name if name in ERR_NAMES[:6] else ("UriError" if name == "UriError" else "Error")
        got_name = v.name.value if hasattr(v.name, "value") else v.name
        if got_name != want_name:
            self.fail("value", path, f"error name {want_name}", v.name)
        message = nd[3]
        if nd[1] % 2 or type(v) is JSError:  # JSError has no way to tell None from ""
            message = message or ""
        if v.message != message:
            self.fail("value", path, f"error message {message!r}", v.message)
        if v.stack != nd[4]:
            self.fail("value", path, f"error stack {nd[4]!r}", v.stack)
        self.todo.append((-1 if nd[5] is None else nd[5], v.cause, (path, "cause")))

    def m_pyexc(self, nd, c, v, path):
        if type(v) is not self.types.get("err", JSError):
            self.fail("value", path, "JSError", v)
        wrong = pyexc_wrong(self.g.vals[c], v.message, v.stack)
        if wrong is not None:
            self.fail("value", path, wrong, (v.message, v.stack))
        if nd[3] is None:
            if v.cause is not None:
                self.fail("value", path, "no cause", v.cause)
        else:
            # the cause chain is converted along with it, not by identity
            sub = _Matcher(self.g, self.features, "", None, False, self.types)
            sub.run(nd[3], v.cause)


# ---------------------------------------------------------------------------
# generation

LENS = [0, 1, 2, 3, 5, 8, 13, 31, 63, 64, 126, 127, 128, 129, 200, 255, 256, 300]


def gen_int(r: random.Random) -> int:
    k = r.randrange(10)
    if k < 3:
        return r.randrange(-5, 300)
    if k < 6:
        b = r.choice([7, 8, 14, 16, 21, 28, 30, 31, 32, 33, 35, 52, 53, 54, 56, 63, 64, 65, 127, 128, 255, 256, 512])
        return r.choice([1, -1]) * ((1 << b) + r.randrange(-2, 3))
    if k < 8:
        return r.randrange(-(2**33), 2**33)
    if k == 8:
        return r.choice([1, -1]) * r.getrandbits(r.randrange(1, 600))
    return r.choice([0, 1, -1, 127, 128, 2**31 - 1, -(2**31), 2**32 - 1, 2**53 - 1, -(2**53) + 1, 2**53])


def gen_float(r: random.Random) -> str:
    k = r.randrange(6)
    if k == 0:
        return r.choice(["nan", "inf", "-inf", "-0x0.0p+0", "0x0.0p+0"])
    if k == 1:
        return float(r.randrange(-1000, 1000)).hex()
    if k == 2:
        return float(gen_int(r) % 2**70).hex()
    if k == 3:
        return (r.random() * r.choice([1, -1, 1e10, 1e-10])).hex()
    if k == 4:
        f = struct.unpack("<d", r.getrandbits(64).to_bytes(8, "little"))[0]
        return hex_float(f)
    return r.choice(["0x0.0000000000001p-1022", "0x1.fffffffffffffp+1023", "0x1p+31", "0x1p+32", "-0x1p+31", "0x1p+53"])


ALPH = [
    "abcXYZ019 _-",
    "\x00\x01\x7f~",
    "\x80\xe9\xff\xa0",
    "\u0100\u20ac\u4e2d\ufeff\uffff\u2028",
    "\U0001f600\U00010000\U0010ffff",
]


def gen_str(r: random.Random, maxlen: int = 300) -> str:
    n = r.choice([x for x in LENS if x <= maxlen]) if r.random() < 0.3 else r.randrange(0, 12)
    alph = "".join(r.sample(ALPH, r.randrange(1, len(ALPH) + 1)))
    if r.random() < 0.4:
        alph = ALPH[0]
    return "".join(r.choice(alph) for _ in range(n))


def gen_bytes(r: random.Random) -> str:
    n = r.choice(LENS) if r.random() < 0.2 else r.randrange(0, 25)
    return r.randbytes(n).hex()


def gen_key(r: random.Random):
    k = r.randrange(12)
    if k < 4:
        return r.choice(["a", "b", "c", "x", "name", "__proto__", "length", "", "é", "\u4e2d", "\U0001f600"])
    if k < 6:
        return r.randrange(0, 20)
    if k == 6:
        return r.choice([2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**64, -1, -5, 127, 128])
    if k == 7:
        return str(r.choice([0, 1, 5, 10, 2**32 - 2, 2**32 - 1, 2**32, 2**64, "01", "-1", "-0", "1.5", "+1", " 1", "1e3"]))
    if k == 8:
        return {"f": r.choice([0.0, -0.0, 1.0, 7.0, 0.5, -1.0, -1.5, 2.0**31, 2.0**32, 1e15]).hex()}
    if k == 9:
        return gen_str(r, 130)
    return "k" + str(r.randrange(30))


def gen_leaf(r: random.Random, kinds) -> list:
    k = r.choice(kinds)
    if k == "int":
        return ["int", gen_int(r)]
    if k == "flt":
        return ["flt", gen_float(r)]
    if k == "str":
        return ["str", gen_str(r)]
    if k == "bool":
        return ["bool", r.randrange(2)]
    if k in ("none", "undef", "hole"):
        return [k]
    if k == "date":
        us = r.choice([
            r.randrange(-2 * 10**15, 4 * 10**15),
            r.randrange(-10**9, 10**9),
            r.randrange(10**15, 2 * 10**15) // 1000 * 1000,
            0,
        ])
        return ["date", us, r.choice([None, 0, 60, -300, 345, 840, -720])]
    if k == "re":
        return ["re", gen_str(r, 60), r.choice([0, 1, 2, 3, 16, 64, 128, 255, r.randrange(256), r.randrange(512)])]
    if k == "pyre":
        return ["pyre", r.choice(["", "a", "a+b*", "é", "[x-z]", "(?:q)", "\u4e2d"]), r.randrange(512)]
    if k == "prim":
        return ["prim", r.choice([
            gen_str(r, 60), gen_str(r, 130), {"f": gen_float(r)}, {"f": "-0x0.0p+0"}, {"f": "0x0.0p+0"},
            True, False, r.randrange(100), 2**60 + r.randrange(9), 1, 0,
        ])]
    if k in ("shref", "sab", "abt"):
        return [k, r.choice([0, 1, 2, 127, 128, 2**31, 2**32 - 1])]
    if k in ("bytes", "barr"):
        return [k, gen_bytes(r)]
    if k == "mview":
        return [k, gen_bytes(r), r.randrange(5)]
    if k == "ab":
        return [k, gen_bytes(r), r.choice([None, None, 0, 1, 8, 40])]
    raise AssertionError(k)


COMPOSITES = ["list", "tuple", "deque", "dict", "set", "fset", "obj", "arr", "sparr",
              "map", "mset", "err", "pyexc", "view", "cust"]
COMP_W = [6, 4, 1, 4, 2, 2, 6, 5, 4, 4, 3, 4, 1, 5, 1]
LEAF_KINDS = ["int"] * 5 + ["flt"] * 4 + ["str"] * 5 + [
    "bool", "none", "undef", "hole", "date", "date", "re", "re", "pyre", "prim", "prim",
    "shref", "sab", "abt", "bytes", "bytes", "barr", "mview", "ab", "ab"]
TWINS = [
    ["flt", "0x0.0p+0"], ["flt", "-0x0.0p+0"], ["int", 0], ["bool", 0], ["int", 1],
    ["bool", 1], ["flt", "0x1.0000000000000p+0"], ["str", "1"], ["str", ""], ["bytes", ""],
    ["bytes", "01"], ["barr", "01"], ["ab", "01", None], ["ab", "01", None], ["barr", ""],
    ["list", []], ["list", []], ["obj", []], ["obj", []], ["map", []], ["mset", []],
    ["arr", [], []], ["tuple", []], ["fset", []], ["dict", []], ["re", "a", 0], ["re", "a", 1],
    ["err", 0, 0, None, None, None], ["err", 1, 0, None, None, None], ["date", 0, 0],
    ["flt", "nan"], ["flt", "nan"], ["prim", {"f": "0x0.0p+0"}], ["prim", {"f": "-0x0.0p+0"}],
    ["prim", True], ["prim", 1], ["prim", {"f": "0x1.0000000000000p+0"}], ["shref", 1],
    ["sab", 1], ["abt", 1], ["undef"], ["none"],
]


def content_sig(v):
    """Tells apart the members of equal tuples and frozensets which may not be merged."""
    if isinstance(v, frozenset):
        return "frozenset", sorted(map(repr, map(content_sig, v)))
    if isinstance(v, (tuple, FrozenSeq)):
        return "tuple", [*map(content_sig, v)]
    return type(v).__name__, repr(v) if isinstance(v, (bool, int, float, str, bytes)) else ""


TWIN_LEAVES = [[["flt", "0x0.0p+0"], ["flt", "-0x0.0p+0"], ["int", 0], ["bool", 0]],
               [["int", 1], ["bool", 1], ["flt", "0x1.0000000000000p+0"]],
               [["str", "a"], ["str", "b"]], [["prim", {"f": "0x0.0p+0"}], ["prim", {"f": "-0x0.0p+0"}]],
               [["flt", (7.0).hex()], ["int", 7]], [["list", []], ["list", []]]]


def twin_family(r: random.Random, nodes: list, ck) -> list:
    """Tuples and frozensets, nested alike, equal or almost so; returns the places they are held in."""
    kinds = [k for k in ("tuple", "fset") if k in ck]
    if r.random() < 0.4:  # collections of the user's own
        kinds += ["fseq", "fmap"]
    shape = [r.choice(kinds) for _ in range(r.choice([1, 1, 2, 3]))]
    fams = r.sample(TWIN_LEAVES, r.choice([1, 1, 2]))
    fixed = [r.choice(["", r.choice(TWIN_LEAVES[2])]) for _ in shape]
    places = []
    for _ in range(r.choice([2, 3, 5])):
        # immutables hold nodes of higher index, so the outermost comes first
        base = len(nodes)
        for d, k in enumerate(shape):
            nodes.append([k, []])
        for d, k in enumerate(shape):
            kids = [base + d + 1] if d + 1 < len(shape) else []
            if fixed[d]:
                nodes.append(list(fixed[d]))
                kids.append(len(nodes) - 1)
            if d + 1 == len(shape):
                for f in fams:
                    nodes.append([x if not isinstance(x, list) else list(x) for x in r.choice(f)])
                    kids.append(len(nodes) - 1)
            if shape[d] == "fmap":
                nodes.append(["str", "k"])
                kids = [[c if nodes[c][0] in HASH_LEAF and r.random() < 0.3 else len(nodes) - 1, c] for c in kids]
            nodes[base + d][1] = kids
        places += [base] * r.choice([1, 1, 2])
    return places


BIG_LENS = [1000, 1024, 4095, 4097, 8192, 16383, 16384, 20000, 32768, 65535, 65536, 70001]
BIG_COUNTS = [257, 500, 1000, 1024, 1025, 1500, 2500]


def big_str(r: random.Random) -> str:
    n = r.choice(BIG_LENS)
    block = "".join(r.choice("".join(r.sample(ALPH, r.randrange(1, 3)))) for _ in range(61))
    s = (block * (n // 61 + 1))[: n - 1]
    at = r.randrange(n)
    return s[:at] + r.choice(["a", "\xe9", "\u20ac", "\U0001f600", "\0"]) + s[at:]


def gen_big(r: random.Random, lk, ck) -> dict:
    """A graph with a long string, a large buffer, a container with many entries or deep nesting."""
    nodes: list = [["list", []]]

    def add(nd):
        nodes.append(nd)
        return len(nodes) - 1

    shapes = [x for x in ("str", "re", "bytes", "barr", "ab", "mview") if x in lk]
    shapes += [x for x in ("obj", "list", "arr", "sparr", "map", "mset", "dict", "tuple", "err", "deque") if x in ck]
    shapes += ["deep"] if "list" in ck or "arr" in ck else []
    again = [x for x in ("bytes", "date", "re", "prim", "shref") if x in lk]
    shapes += ["again"] * 3 if "list" in ck and again else []
    k = r.choice(shapes + [x for x in shapes if x in ("str", "bytes", "ab")])
    n = r.choice(BIG_COUNTS)
    x = r.choice(["int", "int", "flt", "str", "twins"])
    kinds = [["int", gen_int(r)], ["flt", gen_float(r)], ["str", gen_str(r, 30)]]

    def item(j):
        if x == "twins" and j % 3:
            return r.randrange(1, len(nodes)) if len(nodes) > 1 else add(["int", 7])
        return add({"int": ["int", j * 7 - 99], "flt": ["flt", float(j + 0.5).hex()],
                    "str": ["str", f"s{j}"]}.get(x) or r.choice(kinds))

    if k == "str":
        root = add(["str", big_str(r)])
    elif k == "re":
        root = add(["re", big_str(r), r.choice([0, 1, 2])])
    elif k in ("bytes", "barr"):
        root = add([k, r.randbytes(r.choice(BIG_LENS)).hex()])
    elif k == "mview":
        root = add([k, r.randbytes(r.choice(BIG_LENS) // 8 * 8).hex(), r.randrange(5)])
    elif k == "ab":
        b = r.choice(BIG_LENS)
        root = add([k, r.randbytes(b).hex(), r.choice([None, None, b, b + 9, 2 * b])])
    elif k == "err":
        root = add([k, r.randrange(2), r.randrange(len(ERR_NAMES)), r.choice([None, big_str(r)]), big_str(r), None])
    elif k == "again":
        # equal immutables, many other values, then the same immutables again
        a = [gen_leaf(r, [r.choice(again)]) for _ in range(r.choice([1, 1, 3]))]
        pair = [add(list(nd)) for nd in a for _ in range(2)]
        fill = [add(["int", j]) for j in range(r.choice([1100, 1100, 2100, 4200, 4200, 9000]))]
        root = add(["list", [*pair, *fill, *r.sample(pair, len(pair))]])
    elif k == "deep":
        root = item(0)
        for _ in range(r.choice([10, 25, 40])):
            c = r.choice([c for c in ("list", "obj", "map", "arr", "mset", "dict") if c in ck])
            root = add([c, [[root, root]]] if c in ("map", "dict") else [c, [["d", root]]] if c == "obj" else
                       [c, [root], []] if c == "arr" else [c, [root]])
    elif k == "obj":
        key = r.choice([lambda j: f"k{j}", lambda j: j * 3, lambda j: f"k{j}" if j % 3 else j])
        root = add([k, [[key(j), item(j)] for j in range(n)] + [[big_str(r), item(0)]] * (r.random() < 0.2)])
    elif k == "arr":
        root = add([k, [item(j) for j in range(n)], [[f"p{j}", 1] for j in range(r.choice([0, 0, 3, 300]))]])
    elif k == "sparr":
        step = r.choice([1, 2, 50, 10**6])
        root = add([k, r.choice([n * step + 1, 2**32 - 1]), [[j * step, item(j)] for j in range(n)], []])
    elif k in ("map", "dict"):
        root = add([k, [[add(["str", f"k{j}"]) if r.random() < 0.3 else add(["int", j * 5]), item(j)] for j in range(n)]])
    else:
        root = add([k, [item(j) for j in range(n)]])
    if k in ("bytes", "barr", "ab") and "view" in ck and r.random() < 0.5:
        views = [add(["view", r.choice(list(VIEW_CLASSES)), root, r.randrange(10), r.choice([None, r.randrange(20), 999])])
                 for _ in range(r.choice([1, 3]))]
        root = add(["list" if "list" in ck else "arr", [root, *views]] + ([] if "list" in ck else [[]]))
    elif ("list" in ck or "arr" in ck) and r.random() < 0.5:
        tail = [root, add(["str", "end"]), root] if "str" in lk else [root, root]
        root = add(["list", tail] if "list" in ck else ["arr", tail, []])
    return {"nodes": nodes, "root": root, "big": 1}


def flavoured(r: random.Random, p: float, g: dict) -> dict:
    """With probability ``p``, the graph is built from a mix of the user's own classes."""
    if r.random() < p:
        g["fl"] = r.randrange(10**6)
    return g


def gen_graph(r: random.Random, *, size=None, leaf_kinds=None, comps=None, maxwidth=8, big=0.0):
    """A random graph.  Swarm style: every graph uses its own subset of kinds."""
    if big and r.random() < big:
        return gen_big(r, leaf_kinds or LEAF_KINDS, comps or COMPOSITES)
    size = size if size is not None else r.choice([1, 2, 3, 4, 6, 8, 12, 18, 25, 40])
    lk = leaf_kinds or LEAF_KINDS
    if r.random() < 0.6:
        lk = [r.choice(lk) for _ in range(r.randrange(1, 6))]
    ck = comps or COMPOSITES
    cw = [COMP_W[COMPOSITES.index(c)] for c in ck]
    if r.random() < 0.6:
        ck2 = [r.choices(ck, cw)[0] for _ in range(r.randrange(1, 5))]
        ck, cw = ck2, [1] * len(ck2)
    p_leaf = r.choice([0.2, 0.5, 0.5, 0.8])
    p_back = r.choice([0.0, 0.15, 0.4, 0.8])
    twins = r.random() < 0.35
    nodes: list = []
    nxt = 1

    def kid(i):
        nonlocal nxt
        if nxt < size and r.random() > p_back:
            nxt += 1
            return nxt - 1
        return r.randrange(size)

    for i in range(size):
        must = (i == 0 and (size > 1 or r.random() < 0.4)) or (nxt == i + 1 and nxt < size)
        if not must and r.random() < p_leaf:
            if twins and r.random() < 0.7:
                nodes.append([x if not isinstance(x, list) else list(x) for x in r.choice(TWINS)])
            else:
                nodes.append(gen_leaf(r, lk))
            continue
        k = r.choices(ck, cw)[0]
        if must and k in ("view", "pyexc", "cust", "set", "fset"):
            k = r.choice(["list", "obj", "map", "arr"])
        w = r.randrange(0, maxwidth)
        if must:
            w = max(2, w)
        if k in ("list", "tuple", "deque", "set", "fset", "mset"):
            nodes.append([k, [kid(i) for _ in range(w)]])
        elif k in ("dict", "map"):
            nodes.append([k, [[kid(i), kid(i)] for _ in range((w + 1) // 2)]])
        elif k == "obj":
            nodes.append([k, [[gen_key(r), kid(i)] for _ in range(w)]])
        elif k == "arr":
            nodes.append([k, [kid(i) for _ in range(w)],
                          [[gen_key(r), kid(i)] for _ in range(r.choice([0, 0, 1, 3]))]])
        elif k == "sparr":
            length = r.choice([0, 1, 5, 16, 17, 40, 129, 1000, 2**14 - 1, 2**14, 2**14 + 5, 2**21, 2**31, 2**32 - 1])
            nodes.append([k, length, [
                [r.choice([r.randrange(max(1, length)), r.randrange(20), length - 1 if length else 0]), kid(i)]
                for _ in range(w)],
                [[gen_key(r), kid(i)] for _ in range(r.choice([0, 0, 1, 3]))]])
        elif k == "err":
            nodes.append([k, r.randrange(2), r.randrange(len(ERR_NAMES)),
                          r.choice([None, "", gen_str(r, 130)]),
                          r.choice([None, "", gen_str(r, 130)]),
                          r.choice([None, kid(i), kid(i)])])
        elif k == "pyexc":
            nodes.append([k, r.randrange(r.choice([10, 80])), gen_str(r, 30).replace("\n", ""), r.choice([None, kid(i)])])
        elif k == "view":
            nodes.append([k, r.choice(list(VIEW_CLASSES)), kid(i), r.randrange(10), r.choice([None, r.randrange(20)])])
        elif k == "cust":
            nodes.append([k, r.randrange(len(CUST_MODES)), [kid(i) for _ in range(w)]])
    # give views something to look at: point most of them at a buffer node
    bufs = [i for i, nd in enumerate(nodes) if nd[0] in VIEWABLE]
    for i, nd in enumerate(nodes):
        if nd[0] == "view":
            if not bufs:
                nodes.append(gen_leaf(r, ["bytes", "barr", "ab", "ab", "sab", "abt"]))
                bufs.append(len(nodes) - 1)
            if nodes[nd[2]][0] not in VIEWABLE or True:
                nd[2] = r.choice(bufs)
    if nodes and "list" in (comps or COMPOSITES) and "tuple" in (comps or COMPOSITES) and r.random() < 0.05:
        places = twin_family(r, nodes, comps or COMPOSITES) + [0]
        r.shuffle(places)
        nodes.append(["list", places])
        return {"nodes": nodes, "root": len(nodes) - 1}
    if r.random() < 0.08:  # many small objects first: multi-byte back references
        k = r.choice([130, 140, 300])
        base = len(nodes)
        kind = r.choice(["list", "obj", "ab", "mset", "err", "date", "re"])
        for j in range(k):
            nodes.append({"list": ["list", []], "obj": ["obj", []], "ab": ["ab", "", None],
                          "mset": ["mset", []], "err": ["err", 0, 0, None, None, None],
                          "date": ["date", j * 10**6, 0], "re": ["re", f"r{j}", 0]}[kind])
        nodes.append(["list", list(range(base, base + k)) + [0, base, base + k - 1, r.randrange(base + k)]])
        return {"nodes": nodes, "root": len(nodes) - 1}
    return {"nodes": nodes, "root": 0}


FEATURES = [0, 0, 7, 15, 31]


def all_features() -> SerializationFeature:
    out = SerializationFeature(0)
    for f in SerializationFeature:
        out |= f
    return out


def gen_features(r: random.Random) -> int:
    full = int(all_features().value)
    return r.choice([0, 0, full, full, r.randrange(full + 1)]) & full


def features_of(n: int) -> SerializationFeature:
    out = SerializationFeature(0)
    for f in SerializationFeature:
        if f.value & n:
            out |= f
    return out
