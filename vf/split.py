"""Runs the tool with several output files and records which file every piece of code comes from."""
import concurrent.futures as cf
import os
import shutil

from . import build
from .paths import JOBS, STUB
from .render import header
from .run import adapt, belongs, blank, compile_and_run, diagnostics, observe_one, sh, tool_args, tool


def symbols(path):
    """Global functions defined in an object file (or program): {name: address}."""
    r = sh(["nm", "--defined-only", path])
    out = {}
    for line in r.stdout.splitlines():
        parts = line.split(None, 2)
        if len(parts) == 3 and parts[1] == "T":
            out[parts[2]] = int(parts[0], 16)
    return out


def execution(env, d, outs, std):
    """Compiles every file on its own, links and imports; returns (raw lines, files of the pieces in order, why)."""
    flags = [f if not f.startswith("-std=") else "-std=" + std for f in build.STUB_FLAGS]
    objs = []
    for o in outs:
        r = sh(["g++", *flags, *env.inc, "-finstrument-functions", "-fno-pie", "-c", o, "-o", o + ".o"], timeout=300)
        env.stats["compiles"] += 1
        if r.returncode != 0:
            return None, [], "%s does not compile: %s" % (os.path.basename(o), r.stderr[:2000])
        objs.append(o + ".o")
    exe = os.path.join(d, "split.out")
    r = sh(["gcc", "-c", STUB + "/profile.c", "-o", os.path.join(d, "profile.o")])
    r = sh(["g++", "-no-pie", *objs, env.rec, os.path.join(d, "profile.o"), "-o", exe])
    if r.returncode != 0:
        return None, [], "files do not link: " + r.stderr[:2000]
    calls = os.path.join(d, "calls")
    lines, why = run_program(exe, os.path.join(d, "split.log"), calls)
    if lines is None:
        return None, [], why
    owner = {}
    addresses = symbols(exe)
    for n, obj in enumerate(objs, 1):
        for name in symbols(obj):
            owner[addresses.get(name)] = n
    pieces = []
    with open(calls) as f:
        for line in f:
            n = owner.get(int(line, 16))
            if n:
                pieces.append(n)
    return lines, pieces, ""


def run_program(exe, log, calls):
    import json
    r = sh([exe], env={**os.environ, "VERIF_LOG": log, "VERIF_CALLS": calls}, timeout=60)
    lines = []
    if os.path.exists(log):
        with open(log, errors="replace") as f:
            lines = [json.loads(line) for line in f]
    if r.returncode != 0 or not lines or lines[-1]["e"] != "end":
        return None, "import crashed (%d)" % r.returncode
    return lines, ""


def observe_split(env, progs, count):
    """All programs (wrapped, or only one) in one header, spread over `count` files."""
    d = env.scratch("split")
    try:
        entries = [(p, n + 1, "p%d" % (n + 1) if p.w else None) for n, p in enumerate(progs)]
        text, where = header(entries)
        hdr = os.path.join(d, "input.h")
        with open(hdr, "w") as f:
            f.write(text)
        outs = [os.path.join(d, "out%d.cpp" % n) for n in range(count)]
        r = tool(env, tool_args(env, hdr, outs, progs[0].mod, progs[0].std))
        env.stats["tool_runs"] += 1
        if r.returncode != 0:
            if len(progs) > 1:
                bad = {where[line][0] for sev, line, msg in diagnostics(r.stderr, hdr)[0] if sev == "error" and line in where}
                good = [p for n, p in enumerate(progs) if n not in bad]
                res = dict(zip([n for n in range(len(progs)) if n not in bad],
                               observe_split(env, good, count) if bad and good else []))
                return [res.get(n) or observe_split(env, [p], count)[0] for n, p in enumerate(progs)]
            o = blank()
            o.update(exit=r.returncode, nfiles=count, pieces=[], why=r.stderr[-600:])
            for sev, line, msg in diagnostics(r.stderr, hdr)[0]:
                o["errs" if sev == "error" else "warns"].append(where.get(line, (0, 0))[1])
            o["errs"] = sorted(set(o["errs"]))
            o["warns"].sort()
            return [o]
        lines, pieces, why = execution(env, d, outs, progs[0].std)
        res = []
        for n, p in enumerate(progs):
            o = blank()
            o.update(exit=0, output=True, nfiles=count, pieces=pieces, built="failed" if lines is None else "yes", why=why)
            if lines is not None:
                wrap = "p%d" % (n + 1) if p.w else None
                own = [x for x in lines if belongs(x, wrap, n + 1)] if wrap else \
                      [x for x in lines if x["e"] not in ("import", "end")]
                o["events"] = adapt(own, p, n + 1, wrap)
            for sev, line, msg in diagnostics(r.stderr, hdr)[0]:
                pos, j = where.get(line, (0, 0))
                if pos == n and sev == "warning":
                    o["warns"].append(j)
            o["warns"].sort()
            res.append(o)
        env.stats["programs"] += len(progs)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe_splits(env, jobs):
    """jobs: [(programs, number of files)]"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda j: observe_split(env, *j), jobs))
