#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]

Decides one property of /repo's current source by static analysis and writes evidence/<property>.json.
Exit 0: no unlisted violation.  Exit 1: VIOLATION line(s).  Exit 2: the analysis could not run."""
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)

from sa.oblig import Context, Result  # noqa: E402
from sa.repo import AnalysisError, REPO, Repo  # noqa: E402

EXTRA = {"spec." + f[:-3]: os.path.join(HERE, "spec", f)
         for f in sorted(os.listdir(os.path.join(HERE, "spec"))) if f.endswith(".py")}
LIMIT = {"quick": 150, "thorough": 600}  # seconds per obligation


class Timeout(Exception):
    pass


def load():
    return Repo(os.environ.get("SA_REPO", REPO), extra=EXTRA)


def work(job):
    """One obligation in its own process; returns plain data."""
    import signal
    name, pattern, limit = job
    import registry
    ob = registry.OBLIGATIONS[name]
    t0 = time.time()

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        ctx = Context(load())
        res = ob.run(ctx, re.compile(pattern) if pattern else None)
        out = [(r.status, r.where, r.what, r.detail, r.rule, r.known) for r in res]
        return name, out, sorted(ctx.functions), time.time() - t0, None
    except AnalysisError as e:
        return name, [], [], time.time() - t0, f"analysis error: {e}"
    except Timeout:
        return name, [("undecided", getattr(ob, "code", "?"), name, "time limit", "", None)], [], time.time() - t0, None
    except MemoryError:
        return name, [("undecided", getattr(ob, "code", "?"), name, "memory", "", None)], [], time.time() - t0, None
    except RecursionError:
        return name, [("undecided", getattr(ob, "code", "?"), name, "recursion depth", "", None)], [], time.time() - t0, None
    except Exception:
        text = traceback.format_exc()
        return name, [("undecided", getattr(ob, "code", "?"), name, "internal: " + text[-700:], "", None)], [], time.time() - t0, None
    finally:
        signal.alarm(0)


def known_findings():
    p = os.path.join(HERE, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import registry
    spec = registry.PROPERTIES.get(prop)
    if spec is None:
        print(f"unknown property {prop}")
        return 2
    jobs = []
    for entry in spec:
        name, rx = entry if isinstance(entry, tuple) else (entry, None)
        ob = registry.OBLIGATIONS[name]
        if getattr(ob, "tier", "quick") == "thorough" and tier == "quick":
            continue
        jobs.append((name, rx.pattern if rx is not None else None, LIMIT[tier]))
    try:
        load()
    except AnalysisError as e:
        print(f"analysis error: {e}")
        return 2
    n = int(os.environ.get("SA_JOBS", "8"))
    if n > 1 and len(jobs) > 1:
        with mp.get_context("fork").Pool(min(n, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(work, jobs, chunksize=1)
    else:
        results = [work(j) for j in jobs]
    errors = [f"{r[0]}: {r[4]}" for r in results if r[4]]
    known = known_findings()
    functions, counts = set(), {"ok": 0, "violation": 0, "undecided": 0, "known": 0}
    bad, undecided, samples, seen = [], [], [], set()
    for name, out, fns, secs, err in results:
        functions |= set(fns)
        if err:
            counts["undecided"] += 1
            undecided.append(("", name, str(err)[:300]))
        for status, where, what, detail, rule, key in out:
            if status == "violation" and key and (prop, key) in known:
                if key not in seen:
                    print(f"KNOWN-FINDING: property={prop} {known[(prop, key)]}")
                    seen.add(key)
                counts["known"] += 1
                continue
            counts[status] += 1
            if status == "violation":
                bad.append((where, what, detail, rule))
            elif status == "undecided":
                undecided.append((where, what, detail[:300]))
            elif len(samples) < 6:
                samples.append(f"{where} {what}: {rule}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", f"{prop}.violations.txt")
    if bad:
        with open(replay, "w") as f:
            for where, what, detail, rule in bad:
                f.write(f"{where}\n  rule: {rule}\n  {what}\n  {detail}\n\n")
    elif os.path.exists(replay):
        os.unlink(replay)
    total = sum(counts.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Each obligation compares one observable (a returned value, a layer or clock field left behind, "
                           "a call's operands, a written output, the condition under which an error is raised) of an entry "
                           "point of the current source with its reference definition, for all inputs, on normalised "
                           "value-flow terms built by abstract interpretation of both sources; or checks a structural rule "
                           "over every matching construct. Undecided obligations raise no alarm and are listed.",
            "obligations": total, "discharged": counts["ok"], "violations": counts["violation"],
            "known_findings": counts["known"], "undecided": counts["undecided"],
            "undecided_list": [" | ".join(x) for x in undecided][:40],
            "entry_points": sorted({j[0] for j in jobs}),
            "functions_analysed": sorted(functions), "samples": samples,
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {total} obligations over {len(functions)} functions: {counts['ok']} hold, "
          f"{counts['violation']} violated, {counts['known']} known, {counts['undecided']} undecided "
          f"({ev['wall_s']} s)")
    for u in undecided[:5]:
        print("  undecided:", " | ".join(u)[:300])
    for e in errors:
        print("  " + e)
    if bad:
        for where, what, detail, rule in bad[:12]:
            print(f"  {where} [{rule}] {what}\n    {detail[:900]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 2 if errors and not counts["ok"] else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
