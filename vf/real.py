"""Compiles generated code against the real pybind11 (and the real access rules)."""
import concurrent.futures as cf
import os
import shutil

from . import build
from .paths import CACHE, JOBS, REPO, STUB
from .render import header
from .run import blank, run_tool, sh

PYTHON_INC = "/usr/include/python3.12"
PYBIND_INC = "/usr/include"
FLAGS = ["-O0", "-w", "-isystem", PYTHON_INC, "-I" + REPO + "/public", "-I" + STUB + "/lib"]


def available():
    return os.path.exists(PYTHON_INC + "/Python.h") and os.path.exists(PYBIND_INC + "/pybind11/pybind11.h")


def precompiled():
    """A precompiled header of pybind11 (C++17)."""
    key = build._digest(build._headers(REPO + "/public") + build._headers(STUB + "/lib") + FLAGS)
    d = os.path.join(CACHE, "stub", "real-" + key)
    h = os.path.join(d, "real.h")
    if not os.path.exists(h + ".gch"):
        os.makedirs(d, exist_ok=True)
        with open(h, "w") as f:
            f.write("#include <genpybind/binding-helpers.h>\n#include <pybind11/pybind11.h>\n#include <string>\n"
                    "#include <memory>\n#include <vector>\n#include <ostream>\n")
        build._compile(["g++", "-std=c++17", *FLAGS, "-x", "c++-header", h], h + ".gch")
    return h


def compile_real(outs, std, pch=None):
    outs = outs if isinstance(outs, list) else [outs]
    for o in outs:
        r = sh(["g++", "-std=" + std, *FLAGS, *(["-include", pch] if pch and std == "c++17" else []), "-fsyntax-only", o],
               timeout=400)
        if r.returncode != 0:
            return False, "\n".join(line for line in r.stderr.splitlines() if "error" in line)[:1500] or r.stderr[:1500]
    return True, ""


def generated_compiles(env, entries, mod, std):
    if not available():
        return False
    d = env.scratch("real")
    try:
        r, hdr, out, _ = run_tool(env, entries, d, mod, std)
        return r.returncode == 0 and compile_real(out, std)[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe_real(env, progs, size=10):
    """Whether the tool accepts the programs, and whether what it generates compiles."""
    pch = precompiled()
    obs = [None] * len(progs)

    def some(items):
        d = env.scratch("real")
        try:
            entries = [(progs[i], n + 1, "p%d" % (n + 1) if progs[i].w else None) for n, i in enumerate(items)]
            p = progs[items[0]]
            r, hdr, out, _ = run_tool(env, entries, d, p.mod, p.std)
            ok, why = False, ""
            if r.returncode == 0:
                env.stats["compiles"] += 1
                ok, why = compile_real(out, p.std, pch)
            if not ok and len(items) > 1:
                half = len(items) // 2
                some(items[:half])
                some(items[half:])
                return
            for i in items:
                obs[i] = blank()
                obs[i].update(exit=r.returncode, built="no" if r.returncode else "yes" if ok else "failed",
                              why=why or "\n".join(x for x in r.stderr.splitlines() if ": error" in x)[:600], prints=r.prints)
                env.stats["programs"] += 1
        finally:
            shutil.rmtree(d, ignore_errors=True)

    groups, single = {}, []
    for i, p in enumerate(progs):
        if p.w:
            groups.setdefault((p.mod, p.std), []).append(i)
        else:
            single.append([i])
    work = single + [g[k:k + size] for g in groups.values() for k in range(0, len(g), size)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(some, work))
    return obs
