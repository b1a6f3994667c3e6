"""Programs of all profiles against the whole specification (development only, see mutate.py)."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, cli, gen, outputs, plans  # noqa: E402
from vf.check import Check  # noqa: E402
from vf.plans import *  # noqa: E402,F403
from vf.plans import ALIASES, BASES, CALLS, ENUMS, FULL, MANUAL, NAMESPACES, OPS, VARS, programs, templates  # noqa: E402


def steps(c):
    prop = dict(p_prop=0.8, p_top_visible=0.9, p_default_arg=0.5, ns={"rec": 5, "ns": 1}, rec={"fun": 6, "rec": 0.6}, decls=(8, 20),
                p_propclash=0.2)
    table = [("default", 60, {}), ("aliases", 60, ALIASES), ("ops", 50, OPS), ("ns", 50, dict(NAMESPACES, p_inconsistent=0.1)),
             ("calls", 60, CALLS), ("bases", 70, BASES), ("enums", 20, ENUMS), ("vars", 30, VARS), ("manual", 30, MANUAL),
             ("props", 40, prop), ("oei", 40, dict(NAMESPACES, p_oei=0.5, p_top_visible=0.8)),
             ("policies", 60, dict(CALLS, p_policies=0.8, p_implicit=0.7, p_variadic=0.3)),
             ("annotated", 40, dict(p_ann=0.7, p_hidden=0.35, p_private=0.3, p_default=0.15, p_empty=0.2)),
             ("streams", 30, dict(OPS, p_stream=0.5, p_name=0.3)), ("large", 20, FULL),
             ("options", 30, dict(p_holder=0.35, p_dyn=0.35, p_doc=0.5, p_base=0.5, p_top_visible=0.7))]
    progs = []
    for tag, n, over in table:
        progs += programs(c, c.n(n), tag, **over)
    progs += gen.operator_programs()
    yield lambda: c.conform(progs, view="ALL")
    yield lambda: c.conform(templates(c, c.n(80), "templates"), view="C16")
    ps = [gen.misused_program("all/%d/%d" % (c.seed, i), **[{}, CALLS, ALIASES, BASES][i % 4]) for i in range(c.n(160))]
    ps += [gen.text_program("all/t/%d/%d" % (c.seed, i), 40, 0.5) for i in range(c.n(20))]
    yield lambda: c.conform(ps, view="C07", compile_ok=False)
    yield lambda: c.universe("misuse", 300, view="C07", compile_ok=False)
    yield lambda: c.universe("misuse_pairs", 300, view="C07", compile_ok=False)
    yield lambda: c.conform([gen.text_program("all/v/%d/%d" % (c.seed, i), 24, 0.0) for i in range(c.n(20))], view="C06")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    c = Check("ALL", "quick", a.seed, a.scale)

    def plan(c):
        for step in steps(c):
            step()
            if c.violations:
                return
    plans.PLANS["ALL"] = plan
    try:
        c.run()
        return c.finish()
    except build.BuildError as e:
        print("ERROR", e)
        return 3


sys.exit(main())
