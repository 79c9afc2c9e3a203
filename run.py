#!/usr/bin/env python3
"""run.py <property> | run.py --replay FILE | run.py --setup"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build as B, driver as D, specs as S


def main():
    if sys.argv[1] == "--replay":
        return D.replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        from concurrent.futures import ThreadPoolExecutor
        B.build_lib("asan"); B.build_lib("plain")
        hs = sorted({(r["harness"], r.get("flav", "asan")) for p in S.PROPS.values() for r in p["runs"]})
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda h: (B.build_harness(*h), B.tool_env(*h)), hs))
        print("built", len(hs), "harnesses"); return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = S.PROPS[prop]
    run = D.Run(prop, tier, seed)
    if meta.get("only"):
        run.only = re.compile(meta["only"])
    specs = []
    for r in meta["runs"]:
        n = r["n"][0] if tier == "quick" else r["n"][1]
        if n:
            specs.append(dict(r, n=n))
    try:
        run.run_all(specs)
    except B.BuildError as e:
        print("BUILD ERROR\n" + str(e)); return 2
    return run.finish(meta)


if __name__ == "__main__":
    sys.exit(main())
