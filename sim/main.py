"""check <PROPERTY>: run, replay, report."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import importlib.util
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.environ.get("SIM_VERIF") or os.path.dirname(HERE)


def _fix_addresses() -> None:
    """Re-exec with address-space randomisation off, so that id()-derived
    orders are the same in every process.  Best effort: without it runs are
    still repeatable except for the iteration order of identity-hashed sets."""
    if os.environ.get("SIM_NOASLR") == "1":
        return
    os.environ["SIM_NOASLR"] = "1"
    flags = []
    prop = next((a for a in sys.argv[1:] if re.fullmatch(r"[A-Z]\d\d", a)), "")
    try:
        with open(os.path.join(HERE, "props", prop.lower() + ".py")) as f:
            if "\nOPTIMIZE = True\n" in f.read():
                flags = ["-O"]  # the library's asserts are not to be relied on
    except OSError:
        pass
    try:
        import ctypes

        libc = ctypes.CDLL(None)
        cur = libc.personality(0xFFFFFFFF)
        if cur != -1 and not cur & 0x0040000:
            if libc.personality(cur | 0x0040000) != -1 and not flags:
                flags = ["-B"]
    except Exception:
        pass
    if flags:
        os.execv(sys.executable, [sys.executable, *flags, *sys.argv])


def load(prop: str):
    sys.path[:] = [p for p in sys.path if not p.rstrip("/").endswith("/repo/src")]
    sys.path.insert(0, os.path.join(REPO, "src"))
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    m = importlib.util.find_spec(f"props.{prop.lower()}")
    if m and "\nimport sched" in open(m.origin).read():
        import sched  # before the library, whose locks it replaces

        sched.install()
    import v8serialize

    want = os.path.realpath(os.path.join(REPO, "src", "v8serialize"))
    got = os.path.realpath(os.path.dirname(v8serialize.__file__))
    if want != got:
        raise SystemExit(f"wrong v8serialize imported: {got}")
    return importlib.import_module(f"props.{prop.lower()}")


def known_findings(prop: str):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln and not ln.startswith(("#", "fixed:")):
                d = json.loads(ln)
                if d.get("property") == prop:
                    out.append(d)
    return out


def main() -> int:
    _fix_addresses()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--index", type=int, help="run and trace one scenario")
    ap.add_argument("--jobs", type=int, default=min(16, os.cpu_count() or 4))
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--digest", action="store_true", help="print the campaign digest")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    import core

    sys.modules["core"] = core
    mod = load(a.prop)

    if a.replay:
        return replay(mod, core, a)
    if a.index is not None:
        rr = core.run_child(mod, [(a.index, None)], a.seed, a.tier, record=True)
        print(json.dumps(rr[0], indent=1))
        return 1 if rr[0].get("violation") else 0

    t0 = time.monotonic()
    total = a.runs or mod.RUNS[a.tier]
    known = known_findings(a.prop)
    agg = {
        "runs": 0,
        "nontrivial": 0,
        "events": 0,
        "calls": 0,
        "sim_ms": 0,
        "faults": {},
        "probes": {},
    }
    states: set[str] = set()
    digests: set[str] = set()
    by_index: dict[int, str] = {}
    viols: list[tuple[dict, list]] = []
    kf_hits: dict[str, int] = {}
    herrs: list[dict] = []

    def on_result(res, items) -> bool:
        agg["runs"] += 1
        agg["nontrivial"] += res["nontrivial"]
        agg["events"] += res["events"]
        agg["calls"] += res["calls"]
        agg["sim_ms"] += res["sim_ms"]
        for k in ("faults", "probes"):
            for n, c in res[k].items():
                agg[k][n] = agg[k].get(n, 0) + c
        states.update(res["states"])
        if res["nontrivial"]:
            digests.add(res["digest"])
        by_index[res["done"]] = res["digest"]
        if res.get("harness_error"):
            herrs.append(res)
            return len(herrs) > 5
        v = res.get("violation")
        if v:
            for k in known:
                if k["kind"] == v["kind"] and re.search(k["match"], v["detail"]):
                    kf_hits[k["what"]] = kf_hits.get(k["what"], 0) + 1
                    return False
            viols.append((res, items))
            return len(viols) >= 12 and not a.keep_going
        return False

    core.run_campaign(mod, a.seed, a.tier, total, a.jobs, on_result)
    explore_s = time.monotonic() - t0

    rc = 0
    for k in known:
        n = kf_hits.get(k["what"], 0)
        print(f"KNOWN-FINDING: property={a.prop} {k['what']} (seen {n} times)")
    reported = []
    if viols:
        rc = 1
        viols.sort(key=lambda t: t[0]["done"])
        seen_kinds = set()
        for res, items in viols:
            kind = res["violation"]["kind"]
            if kind in seen_kinds:
                continue
            seen_kinds.add(kind)
            if len(seen_kinds) > (6 if a.keep_going else 2):
                break
            path, how = make_replay(mod, core, a, res, items, len(seen_kinds) == 1)
            reported.append(path)
            print(f"VIOLATION property={a.prop} replay={path}")
            print(f"  seed={a.seed} index={res['done']} kind={kind}: "
                  f"{res['violation']['detail'][:600]}")
            print(f"  {how}")
            if res["violation"].get("traceback"):
                print(res["violation"]["traceback"])
        if a.keep_going:
            from collections import Counter

            c = Counter(v[0]["violation"]["kind"] for v in viols)
            print("violation kinds:", dict(c))
    if herrs and rc == 0:
        rc = 2
    for h in herrs[:3]:
        print(f"HARNESS-ERROR index={h['done']}\n{h['harness_error']}", file=sys.stderr)

    write_evidence(mod, core, a, agg, states, digests, viols, kf_hits, explore_s, t0, total)
    print(
        f"{a.prop} tier={a.tier} seed={a.seed}: {agg['runs']} runs "
        f"({agg['nontrivial']} non-trivial, {len(digests)} distinct) in "
        f"{explore_s:.1f}s, {sum(agg['faults'].values())} faults injected, "
        f"{len(states)} states, {len(viols)} violations, {len(herrs)} harness errors"
    )
    if a.digest:
        h = hashlib.blake2b(
            json.dumps(sorted(by_index.items())).encode(), digest_size=16
        ).hexdigest()
        print(f"DIGEST {h}")
        if os.environ.get("SIM_DEBUG"):
            print(json.dumps(sorted(by_index.items())))
    return rc


def make_replay(mod, core, a, res, items, minimise):
    """Confirm in a fresh process, minimise, write the replay file."""
    kind = res["violation"]["kind"]
    index = res["done"]
    scn = res.get("scenario")
    if scn is None:
        scn = json.loads(
            json.dumps(mod.gen(core.rng_for(a.seed, mod.PROP, index), index, a.tier))
        )
    doc = {
        "property": a.prop,
        "seed": a.seed,
        "index": index,
        "tier": a.tier,
        "kind": kind,
        "detail": res["violation"]["detail"],
    }
    rr = core.run_child(mod, [(0, scn)], a.seed, a.tier)
    v = rr[0].get("violation") if rr else None
    trials = 0
    if v and v["kind"] == kind:
        if minimise and not a.no_shrink and kind not in ("hang", "nontermination"):
            budget = 40.0 if a.tier == "quick" else 120.0
            scn, trials = core.shrink(mod, scn, kind, a.seed, a.tier, budget, a.jobs)
        doc["scenarios"] = [scn]
        how = f"reproduced alone; minimised in {trials} trials"
    else:
        # depends on what earlier runs of the chunk left in the process
        pre = [
            json.loads(json.dumps(mod.gen(core.rng_for(a.seed, mod.PROP, i), i, a.tier)))
            for i, _ in items
            if i < index
        ] + [scn]

        def fails(seq):
            rr = core.run_child(mod, list(enumerate(seq)), a.seed, a.tier)
            return bool(
                rr
                and len(rr) == len(seq)
                and (rr[-1].get("violation") or {}).get("kind") == kind
            )

        if fails(pre):
            i = 0
            t_end = time.monotonic() + 60
            while i < len(pre) - 1 and time.monotonic() < t_end:
                cand = pre[:i] + pre[i + 1 :]
                if fails(cand):
                    pre = cand
                else:
                    i += 1
            doc["scenarios"] = pre
            how = f"needs {len(pre)} runs in one process (state leaks between calls)"
        else:
            doc["scenarios"] = pre
            how = "not reproduced in isolation"
    # the final replay's own trace and detail
    rr = core.run_child(
        mod, list(enumerate(doc["scenarios"])), a.seed, a.tier, record=True
    )
    if rr and rr[-1].get("violation"):
        doc["detail"] = rr[-1]["violation"]["detail"]
        doc["traceback"] = rr[-1]["violation"].get("traceback")
        doc["digest"] = rr[-1]["digest"]
        doc["trace"] = rr[-1].get("trace")
        res["violation"]["detail"] = doc["detail"]
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.blake2b(
        json.dumps(doc["scenarios"], sort_keys=True).encode(), digest_size=5
    ).hexdigest()
    path = os.path.join(d, f"{a.prop}-{a.seed}-{index}-{tag}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    return path, how


def replay(mod, core, a) -> int:
    doc = json.load(open(a.replay))
    rr = core.run_child(
        mod,
        list(enumerate(doc["scenarios"])),
        doc.get("seed", 1),
        doc.get("tier", "quick"),
        record=True,
    )
    last = rr[-1]
    for ln in last.get("trace", []):
        print("  ", ln)
    v = last.get("violation")
    if v:
        same = (
            "same trace digest"
            if last["digest"] == doc.get("digest")
            else "trace digest differs"
        )
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        print(f"  kind={v['kind']}: {v['detail'][:1500]}  ({same})")
        if v.get("traceback"):
            print(v["traceback"])
        return 1
    if last.get("harness_error"):
        print(last["harness_error"])
        return 2
    print("replay: no violation")
    return 0


def write_evidence(mod, core, a, agg, states, digests, viols, kf, explore_s, t0, total):
    samples = []
    for i in range(total):
        if len(samples) >= 2:
            break
        try:
            scn = mod.gen(core.rng_for(a.seed, mod.PROP, i), i, a.tier)
            if len(json.dumps(scn)) < 3000:
                samples.append({"index": i, "scenario": scn})
        except Exception:
            break
    hours = max(explore_s, 1e-9) / 3600
    doc = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs_per_hour": round(agg["runs"] / hours),
            "seeds_per_hour": round(agg["runs"] / hours),
            "simulated_time_ms": agg["sim_ms"],
            "library_calls": agg["calls"],
            "trace_events": agg["events"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "distinct_states": len(states),
            "state_measure": getattr(mod, "STATE_MEASURE", ""),
            "components": getattr(mod, "COMPONENTS", {}),
            "known_findings_seen": kf,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viols),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{a.prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
