"""Observes the graphs printed with --dump-graph."""
import concurrent.futures as cf
import os
import re
import shutil

from .paths import JOBS
from .render import header
from .run import blank, diagnostics, fingerprint, strip_wrap, tool, tool_args

TITLES = (("visibility", "Declaration context graph (unpruned) with visibility of all nodes:"),
          ("pruned", "Declaration context graph after pruning:"))
NODE = re.compile(r"^((?:\| |  )*)[|`]-(\w+) '(.*?)'(?: as '(.*)')?: (visible|hidden)$")


def tree(lines):
    """[(n, up, as, vis)] from the lines of one printed graph."""
    out, stack = [], []
    for line in lines:
        m = NODE.match(line)
        if not m:
            break
        depth = len(m[1]) // 2
        del stack[depth:]
        if len(stack) != depth:
            return None
        name = plain(m[3])
        out.append({"n": name, "up": stack[-1] if stack else "", "as": m[4] or "", "vis": m[5] == "visible"})
        stack.append(name)
    return out


def plain(name):
    """Template arguments may be printed the way they were written."""
    return re.sub(r"([<,(] ?)::", lambda m: "<" if m[1][0] == "<" else m[1], name)


def graphs(text, prog, wrap):
    lines = text.splitlines()
    res = {}
    names = {prog[i]["n"] for i in range(1, len(prog) + 1)}
    for stage, title in TITLES:
        at = [k for k, line in enumerate(lines) if line == title]
        nodes = tree(lines[at[0] + 1:]) if len(at) == 1 else None
        if nodes is None:
            res[stage] = [{"n": "unreadable", "up": "", "as": "", "vis": False}]
            continue
        own = []
        for x in nodes:
            # what other headers declare does not matter
            root = x["n"].split("::")[0].split("<")[0]
            if wrap and x["n"] == wrap:
                continue
            if wrap and root != wrap or not wrap and root not in names:
                continue
            own.append(dict(x, n=strip_wrap(x["n"], wrap), up="" if x["up"] == wrap else strip_wrap(x["up"], wrap)))
        res[stage] = own
    return res


def observe_graph(env, p):
    d = env.scratch("graph")
    wrap = "p1" if p.w else None
    try:
        text, where = header([(p, 1, wrap)])
        hdr, out = os.path.join(d, "input.h"), os.path.join(d, "out.cpp")
        with open(hdr, "w") as f:
            f.write(text)
        extra = ["--dump-graph=visibility", "--dump-graph=pruned"]
        r = tool(env, tool_args(env, hdr, out, p.mod, p.std, extra))
        o = blank()
        o["graphs"] = graphs(r.stderr, p, wrap)
        o.update(exit=r.returncode, output=os.path.exists(out))
        if r.returncode:
            o["why"] = r.stderr[-300:]
        # looking at the graphs changes nothing else
        quiet = lambda t: "\n".join("%s %d" % (x[0], x[1]) for x in diagnostics(t, hdr)[0])
        r.stderr = quiet(r.stderr)
        o["prints"] = [fingerprint(r, out)]
        if os.path.exists(out):
            os.unlink(out)
        r = tool(env, tool_args(env, hdr, out, p.mod, p.std))
        r.stderr = quiet(r.stderr)
        o["prints"].append(fingerprint(r, out))
        env.stats["tool_runs"] += 2
        env.stats["programs"] += 1
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe_graphs(env, progs):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda p: observe_graph(env, p), progs))
