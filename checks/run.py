#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--parts a,b] [--scale X]
   run.py --setup      builds everything the checks need"""
import importlib, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runner, build  # noqa: E402


class Check:
    def __init__(self, prop, argv):
        m = importlib.import_module(prop.lower())
        self.prop, self.argv = prop, argv
        self.parts, self.rule, self.assumptions = m.PARTS, m.RULE, m.ASSUMPTIONS


def all_ids():
    d = os.path.dirname(os.path.abspath(__file__))
    return sorted(f[:-3].upper() for f in os.listdir(d) if len(f) == 6 and f[0] == "c" and f[1:3].isdigit() and f.endswith(".py"))


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build.project("plain")
        from concurrent.futures import ThreadPoolExecutor
        jobs = {}
        for i in all_ids():
            for p in Check(i, []).parts:
                if hasattr(p, "exe"):
                    jobs[(p.harness, str(sorted(p.buildargs.items())))] = p.exe
        for v in ("asan", "fuzz"):
            build.project(v)
        build.reflib()
        build.objlib()
        build.clocklib()
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda f: f(), jobs.values()))
        sys.exit(0)
    sys.exit(runner.main(Check(sys.argv[1].upper(), sys.argv[2:])))
