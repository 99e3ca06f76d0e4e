#!/usr/bin/env python3
"""Build every recorder from /repo's working tree and check that TLC starts."""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
from props import PROPS  # noqa: E402


def main():
    os.makedirs(check.OUT, exist_ok=True)
    os.makedirs(check.EVID, exist_ok=True)
    bins = {}
    for p in PROPS.values():
        for q in [p] + p.get("also", []):
            bins[(q["bin"], tuple(q.get("flags", [])), q.get("cxx", "g++"))] = q
    rc = 0
    with ThreadPoolExecutor(4) as ex:
        jobs = [(p["bin"], ex.submit(check.build, p, p["bin"])) for p in bins.values()]
        for name, j in jobs:
            try:
                print("built", j.result(), flush=True)
            except check.CheckError as e:
                # the checks report it themselves
                print("not built:", name, e, flush=True)
    r = check.tlc("TypeAlgebra", "TypeAlgebra.cfg")
    if not r["ok"]:
        print(check.tail(r["out"]))
        rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
