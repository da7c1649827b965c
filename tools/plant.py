#!/usr/bin/env python3
"""Development aid: confirms seeded changes in scratch copies (build, stable tests, demonstration both ways, own check).

python3 tools/plant.py ID...        (default: all under seeded/)   --fast skips the test suite"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(id, fast):
    d = f"{V}/seeded/{id}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    top = f"/tmp/plant/{id}"
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    try:
        sh(f"cp -a /repo {top}/repo; cp -a /opt/vp/cache {top}/cache")
        os.makedirs(f"{top}/demo")
        sh(f"cp {d}/* {top}/demo/; rm -f {top}/demo/patch.diff {top}/demo/meta.json")
        inside = f"mount --bind {top}/repo /repo && mount --bind {top}/cache /opt/vp/cache && cd /repo && "
        ns = lambda c: sh(["unshare -m bash -c '" + inside + c + "'"][0])
        out = [id, prop]
        r = ns(f"bash {top}/demo/demo.sh")
        out.append("demo clean ok" if r.returncode == 0 else f"DEMO FAILS CLEAN: {(r.stdout + r.stderr)[-600:]}")
        r = sh(f"git -C {top}/repo apply {d}/patch.diff")
        if r.returncode:
            return out + ["PATCH DOES NOT APPLY " + r.stderr[-300:]]
        r = ns("bash /opt/vp/build.sh")
        out.append("build ok" if r.returncode == 0 else f"BUILD FAILS {(r.stdout + r.stderr)[-300:]}")
        r = ns(f"bash {top}/demo/demo.sh")
        out.append("demo patched fails" if r.returncode else "DEMO PASSES PATCHED")
        out.append((r.stdout + r.stderr).strip().splitlines()[-1][:150] if (r.stdout + r.stderr).strip() else "")
        if not fast:
            r = ns(f"bash /opt/vp/test.sh {top}/out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            res = json.load(open(f"{top}/out.json"))
            out.append("tests: " + compare(base, res))
        r = sh(f"SA_REPO={top}/repo python3 {V}/check.py {prop}", cwd=V)
        hit = [x for x in r.stdout.splitlines() if x.startswith("  ")]
        out.append(f"check rc {r.returncode}: {(hit or ['?'])[0].strip()[:160]}")
        return out
    finally:
        shutil.rmtree(top, ignore_errors=True)


def names(x, key):
    if isinstance(x, dict):
        for k in (key,):
            if k in x:
                v = x[k]
                return set(v) if isinstance(v, (list, dict)) else set()
    return set()


def compare(base, res):
    bp = next((names(base, k) for k in ("passed", "stable", "tests", "pass") if k in base), set())
    rp = next((names(res, k) for k in ("passed", "pass") if k in res), set())
    missing = sorted(bp - rp)
    return f"{len(rp)} pass, {len(missing)} stable tests missing {missing[:3]}"


if __name__ == "__main__":
    fast = "--fast" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(f"{V}/seeded"))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda i: one(i, fast), ids):
            print("\n   ".join(r), flush=True)
