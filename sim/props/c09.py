"""C09: == and repr() of cyclic values are the same from any number of threads."""
from __future__ import annotations

import datetime as dt
import random
import sys

import sched
from core import Violation, check, short

from v8serialize.constants import JSRegExpFlag
from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSBigInt64Array, JSDataView, JSError, JSErrorData, JSFloat64Array,
    JSHole, JSInt16Array, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSUint8Array,
    JSUndefined,
)

PROP = "C09"
RUNS = {"quick": 22000, "thorough": 250000}
CHUNK = 60
RULE = (
    "scenario = a small cyclic graph of JavaScript-like and plain containers built three times (two "
    "twins, one with a changed element), 1-4 threads each comparing and printing seeded pairs of "
    "its nodes, some calls failing inside an element's == or repr or by running out of stack at a "
    "seeded depth, under a seeded schedule; non-trivial when a call was interleaved or failed; "
    "distinct by trace digest"
)
STATE_MEASURE = "kinds in the graph x call kinds x failures x switches"
COMPONENTS = {
    "v8serialize ==, repr of jstypes": "real, in real threads run one at a time",
    "thread scheduler": "simulated (sim/sched.py)",
    "elements": "harness objects whose == and repr may switch or raise",
}
ASSUMPTIONS = [
    "exceptions come from elements, the stack running out and failing allocations of built-in containers, "
    "not from signal handlers between two bytecodes of the bookkeeping itself",
]
KINDS = ["obj", "obj", "arr", "arr", "sparr", "map", "map", "mset", "mset", "err", "errd", "list", "dict"]


class ElFailed(Exception):
    pass


class ElFailedBase(BaseException):
    pass


class Op:
    """What the elements do during one call: switch, and raise at the nth use."""

    def __init__(self, fail_at=None, how=0):
        self.fail_at = fail_at
        self.how = how
        self.uses = 0
        self.failed = False

    def use(self):
        self.uses += 1
        t = sched.current_task()
        if t:
            t.sched.point()
            t.check_stack(sys._getframe(2))
        if self.fail_at is not None and self.uses == self.fail_at:
            self.failed = True
            raise [ElFailed, ElFailedBase, RecursionError, MemoryError, KeyError][self.how % 5]("element")


_ops: dict = {}


def op_now():
    t = sched.current_task()
    return _ops.get(t.i if t else None)


class El:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        op = op_now()
        if op:
            op.use()
        return isinstance(o, El) and self.k == o.k

    __hash__ = None

    def __repr__(self):
        op = op_now()
        if op:
            op.use()
        return f"El{self.k}"


def mv(data, *cast, step=None):
    m = memoryview(data)
    if cast:
        m = m.cast(*cast)
    return m[::step] if step else m


# values without other values in them, of every kind that has a printed form
PLAIN = [
    lambda: b"ab", lambda: bytearray(b"ab"), lambda: mv(b"abcd"), lambda: mv(bytearray(b"abcd")),
    lambda: mv(b"abcdef", step=2), lambda: mv(b"abcdef", step=-1), lambda: mv(b"abcdefgh", "i"),
    lambda: mv(b"abcdefgh", "h", step=2), lambda: mv(b"abcdef", "B", (2, 3)), lambda: mv(b""),
    lambda: JSArrayBuffer(b"abcd"), lambda: JSArrayBuffer(b"ab", max_byte_length=9),
    lambda: JSArrayBuffer(bytearray(b"abcd"), copy_data=False), lambda: JSArrayBuffer(mv(b"abcdef", step=2)),
    lambda: JSUint8Array(JSArrayBuffer(b"abcd"), 1, 2), lambda: JSDataView(JSArrayBuffer(b"abcd")),
    lambda: JSInt16Array(JSArrayBuffer(b"abcd", max_byte_length=8)), lambda: JSFloat64Array(bytearray(16)),
    lambda: JSBigInt64Array(JSSharedArrayBuffer(7)), lambda: JSSharedArrayBuffer(3), lambda: JSArrayBufferTransfer(3),
    lambda: JSRegExp("a/b", JSRegExpFlag.Global), lambda: JSPrimitiveObject("x"), lambda: JSPrimitiveObject(2.5),
    lambda: JSUndefined, lambda: dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), lambda: (1, "a"), lambda: frozenset([1]),
    lambda: "q" * 100, lambda: 10**40, lambda: range(3), lambda: ValueError("v") and 3j,
]


def gen(r, i, tier):
    n = r.choice([1, 2, 3, 4, 5, 7])
    kinds = [r.choice(KINDS) for _ in range(r.randrange(1, 4))] if r.random() < 0.6 else KINDS
    nodes = []
    back = r.choice([0.3, 0.6, 0.9])
    for j in range(n):
        ents = []
        for _ in range(r.randrange(1, 4)):
            # a child: a node, an element, or a plain value
            if r.random() < back:
                c = r.randrange(n)
            elif r.random() < 0.7:
                c = {"el": r.randrange(3)}
            else:
                c = {"v": r.choice([1, "a", None, 2.5, ""])} if r.random() < 0.6 else {"x": r.randrange(len(PLAIN))}
            ents.append([r.choice([0, 0, 1, 2, 3]), c])
        nodes.append([r.choice(kinds), ents])
    nt = r.choice([1, 2, 2, 3, 4])
    ops = []
    for _ in range(nt):
        mine = []
        for _ in range(r.randrange(1, 5)):
            f = r.random()
            fault = None
            if f < 0.2:
                fault = ["el", r.randrange(1, 6), r.randrange(5)]
            elif f < 0.35:
                fault = ["stack", r.randrange(1, 45), 0]
            if r.random() < 0.6:
                a, b = r.choice(["ab", "ba", "ab", "ac", "ca", "aa", "bc", "ad", "da", "ad", "cd"])
                i1 = 0 if r.random() < 0.6 else r.randrange(n)
                i2 = i1 if r.random() < 0.7 else r.randrange(n)
                mine.append(["eq", a, i1, b, i2, fault])
            else:
                mine.append(["repr", r.choice("abc"), 0 if r.random() < 0.6 else r.randrange(n), fault])
        ops.append(mine)
    plan = sched.gen_plan(r, nt, op=(i // CHUNK) % 4 == 3)
    if (i // CHUNK) % 4 == 2:
        plan["sig"] = 2
        plan["inj"] = [[r.randrange(nt), int(2 ** r.uniform(0, 6)), "memory"] for _ in range(r.randrange(1, 4))]
    rewire = [r.randrange(n), r.randrange(3), r.randrange(n)]
    return {"nodes": nodes, "mut": r.randrange(20), "rewire": rewire, "ops": ops, "plan": plan}


def build(nodes, change=None):
    n = len(nodes)
    made = {"obj": JSObject, "arr": JSArray, "sparr": JSArray, "map": JSMap, "mset": JSSet,
            "err": JSError, "errd": JSErrorData, "list": list, "dict": dict}
    vals = []
    for k, ents in nodes:
        if k in ("err", "errd"):
            vals.append(made[k](f"m{len(ents)}", stack="s"))
        else:
            vals.append(made[k]())
    count = 0

    def val(c):
        nonlocal count
        if isinstance(c, dict):
            if "el" in c:
                count += 1
                return El(c["el"] + (100 if count - 1 == change else 0))
            if "x" in c:
                return PLAIN[c["x"] % len(PLAIN)]()
            return c["v"]
        return vals[c % n]

    for (k, ents), o in zip(nodes, vals):
        for j, (key, c) in enumerate(ents):
            v = val(c)
            if k == "obj":
                o[f"p{j}" if key else j] = v
            elif k == "arr":
                if key < 3:
                    o.array.append(v)
                else:
                    o[f"p{j}"] = v
            elif k == "sparr":
                if j == 0:
                    o[40] = JSHole
                o[key * 7 + j] = v
            elif k == "map":
                if key == 3 and isinstance(v, (JSObject, JSMap, JSSet)):
                    o[v] = j
                else:
                    o[f"k{j}"] = v
            elif k == "mset":
                o.add(v)
            elif k in ("err", "errd"):
                o.cause = v
            elif k == "list":
                o.append(v)
            elif k == "dict":
                o[f"k{j}"] = v
    return vals, count


def reach(nodes):
    """Element indexes reachable from each node (in build's counting order)."""
    n = len(nodes)
    own, count = [], 0
    for k, ents in nodes:
        mine = []
        for j, (key, c) in enumerate(ents):
            if isinstance(c, dict) and "el" in c:
                mine.append((count, j, key))
                count += 1
        own.append(mine)
    out = []
    for s in range(n):
        seen, todo, els = set(), [s], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            k, ents = nodes[x]
            live = live_entries(k, ents)
            for j in live:
                c = ents[j][1]
                if isinstance(c, dict):
                    for e, jj, _ in own[x]:
                        if jj == j:
                            els.add(e)
                else:
                    todo.append(c % n)
        out.append((els, any(nodes[x][0] in ("list", "dict") for x in seen)))
    return out


def live_entries(k, ents):
    """Entries not overwritten by a later one of the same node."""
    if k == "sparr":
        d = {}
        for j, (key, c) in enumerate(ents):
            d[key * 7 + j] = j
        return list(d.values())
    if k in ("err", "errd"):
        return [len(ents) - 1] if ents else []
    return list(range(len(ents)))


def parts(nodes, x, change):
    """The contents of node x, in the order of iteration: [(key, child)], or None if not modelled."""
    k, ents = nodes[x]
    first = sum(1 for _, es in nodes[:x] for _, c in es if isinstance(c, dict) and "el" in c)
    kids = []
    for key, c in ents:
        if isinstance(c, dict):
            if "el" in c:
                kids.append(("el", c["el"] + (100 if first == change else 0), first))
                first += 1
            else:
                kids.append(("x", c["x"] % len(PLAIN)) if "x" in c else ("v", c["v"]))
        else:
            kids.append(("node", c % len(nodes)))
    out = {}
    for j, ((key, _), c) in enumerate(zip(ents, kids)):
        if k == "obj":
            out[f"p{j}" if key else j] = c
        elif k == "arr":
            out[("", sum(1 for e in ents[:j] if e[0] < 3)) if key < 3 else f"p{j}"] = c
        elif k == "sparr":
            out[key * 7 + j] = c
        elif k == "map":
            if key == 3 and c[0] == "node" and nodes[c[1]][0] in ("obj", "arr", "sparr", "map", "mset"):
                out[c] = ("v", j)
            else:
                out[f"k{j}"] = c
        elif k == "mset":
            if c[0] == "x":
                return None
            out[repr(c)] = c
        elif k in ("err", "errd"):
            out["cause"] = c
            out["message"] = ("v", len(ents))
        else:
            out[j] = c
    if k in ("mset", "map"):  # in order; keys are values too
        return [(None if k == "mset" else key, c) for key, c in out.items()]
    return sorted(out.items(), key=lambda e: repr(e[0]))


CLASS = {"sparr": "arr", "errd": "err", "dict": "map"}


def differ(g, h, i, j):
    """Whether something reachable from node i of g and the corresponding thing from node j of h differ for sure."""
    (gn, gc), (hn, hc) = g, h
    seen, todo = set(), [(i, j)]
    while todo:
        if todo[-1] in seen:
            todo.pop()
            continue
        i, j = todo.pop()
        seen.add((i, j))
        k, m = gn[i][0], hn[j][0]
        if CLASS.get(k, k) != CLASS.get(m, m):
            if {k, m} <= {"obj", "arr", "sparr", "map", "err", "errd", "mset"}:
                return True
            continue
        if k != m and {k, m} != {"arr", "sparr"} and {k, m} != {"err", "errd"}:
            continue
        p, q = parts(gn, i, gc), parts(hn, j, hc)
        if p is None or q is None or "arr" in (k, m) and k != m:
            continue
        if len(p) != len(q):
            return True
        for (pk, pc), (qk, qc) in zip(p, q):
            pairs = [(pc, qc)]
            if isinstance(pk, tuple) and pk[0] == "node" and isinstance(qk, tuple) and qk[0] == "node":
                pairs.append((pk, qk))
            elif pk != qk:
                return True
            for a, b in pairs:
                if "x" in (a[0], b[0]):
                    continue
                if a[0] == b[0] == "node":
                    todo.append((a[1], b[1]))
                elif a[:2] != b[:2] or type(a[1]) is not type(b[1]):
                    return True
    return False


def do(op, sides, state):
    """One call.  Returns ("ok", result) or ("error", type name)."""
    if op[0] == "eq":
        _, a, i, b, j, fault = op
        x, y = sides[a][i % len(sides[a])], sides[b][j % len(sides[b])]
        f = lambda: x == y  # noqa: E731
    else:
        _, a, i, fault = op
        x = sides[a][i % len(sides[a])]
        f = lambda: repr(x)  # noqa: E731
    t = sched.current_task()
    if fault is not None and state.get("faults"):
        if fault[0] == "el":
            state["op"] = Op(fault[1], fault[2])
        else:
            state["op"] = Op()
            t.stack(fault[1])
    _ops[t.i if t else None] = state.get("op")
    try:
        try:
            return ("ok", f())
        except sched.Kill:
            raise
        except BaseException as e:  # noqa: BLE001
            return ("error", type(e).__name__)
    finally:
        _ops.pop(t.i if t else None, None)
        if t:
            t.max_depth = t.base = None


def run(s, env):
    nodes = s["nodes"]
    if not nodes or not s["ops"]:
        return
    a, count = build(nodes)
    b, _ = build(nodes)
    mut = s["mut"] % count if count else None
    c, _ = build(nodes, change=mut)
    wired = [[k, [list(e) for e in ents]] for k, ents in nodes]
    node, ent, to = s.get("rewire", [0, 0, 0])
    ents = wired[node % len(nodes)][1]
    if ents and not isinstance(ents[ent % len(ents)][1], dict):
        ents[ent % len(ents)][1] = to % len(nodes)
    d, _ = build(wired)
    sides = {"a": a, "b": b, "c": c, "d": d}
    model = {"a": (nodes, None), "b": (nodes, None), "c": (nodes, mut), "d": (wired, None)}
    els = reach(nodes)
    n = len(nodes)

    def isolated(op, where):
        r = do(op, sides, {})
        env.calls += 1
        if op[0] == "eq" and r[0] == "ok":
            i, j = op[2] % n, op[4] % n
            if i == j and not {"c", "d"} & {op[1], op[3]}:
                check(r[1] is True, "twins-unequal", lambda: f"{where}: node {i} of two equal graphs: {r}")
            if i == j and "c" in (op[1], op[3]) and "d" not in (op[1], op[3]) and mut in els[i][0]:
                check(r[1] is False, "different-equal", lambda: f"{where}: node {i} with a changed element: {r}")
            if differ(model[op[1]], model[op[3]], i, j):
                env.probe("different_values_compared")
                check(r[1] is False, "different-equal",
                      lambda: f"{where}: {op[:-1]} is {r} though something reachable differs")
        return r

    base = {}
    for ops in s["ops"]:
        for op in ops:
            key = repr(op[:-1])
            if key not in base:
                base[key] = isolated(op, "before")
                # cycles made of plain lists and dicts alone have no end
                if base[key][0] == "error":
                    check(base[key][1] == "RecursionError" and cyclic_plain(nodes), "failed",
                          lambda: f"{op[:-1]}: {base[key]}")
                    env.probe("plain_cycle_skipped")
    results = []

    def body(ti, ops):
        def go(t):
            for k, op in enumerate(ops):
                if base[repr(op[:-1])][0] == "error":
                    continue
                st = {"faults": True}
                if op[-1] is None:
                    st["op"] = Op()
                fired = len(t.sched.fired)
                r = do(op, sides, st)
                no_mem = any(x[0] == ti for x in t.sched.fired[fired:])
                failed = no_mem or op[-1] is not None and (t.overflows > 0 if op[-1][0] == "stack" else st["op"].failed)
                if failed:
                    env.fault("no_memory" if no_mem else "element_raises" if op[-1][0] == "el" else "stack_limit")
                env.log("call", ti, k, op[0], r[0], failed)
                env.calls += 1
                results.append((ti, k, op, r, failed))
        return go

    sc = sched.Sched(s["plan"], env)
    for ti, ops in enumerate(s["ops"]):
        sc.spawn(f"t{ti}", body(ti, ops))
    sc.run()
    for t in sc.tasks:
        if t.error is not None:
            raise t.error
    if sc.switches and len(s["ops"]) > 1:
        env.nontrivial = True
    env.state(sorted({k for k, _ in nodes}), sorted({(o[0], o[-1][0] if o[-1] else "") for x in s["ops"] for o in x}),
              min(sc.switches, 12), len(nodes))
    for ti, k, op, r, failed in results:
        want = base[repr(op[:-1])]
        if failed:
            continue
        check(r == want, "eq-differs" if op[0] == "eq" else "repr-differs",
              lambda: f"task {ti} call {k} {op[:-1]}: {short(r)} alone {short(want)}")
        env.probe("calls_checked")
    # nothing is left behind: the same calls again, from here
    for ops in s["ops"]:
        for op in ops:
            want = base[repr(op[:-1])]
            if want[0] == "error":
                continue
            r = isolated(op, "after")
            check(r == want, "eq-changed" if op[0] == "eq" else "repr-changed",
                  lambda: f"afterwards {op[:-1]}: {short(r)} before {short(want)}")
    # and from a thread that has never called anything
    def again(t):
        return [do(op, sides, {}) for ops in s["ops"] for op in ops if base[repr(op[:-1])][0] == "ok"]

    sc = sched.Sched({"sw": []}, env)
    sc.spawn("later", again)
    sc.run()
    if sc.tasks[0].error is not None:
        raise sc.tasks[0].error
    want = [base[repr(op[:-1])] for ops in s["ops"] for op in ops if base[repr(op[:-1])][0] == "ok"]
    check(sc.tasks[0].result == want, "changed-in-new-thread",
          lambda: f"{short(sc.tasks[0].result)} before {short(want)}")


def cyclic_plain(nodes):
    return any(k in ("list", "dict") for k, _ in nodes)
