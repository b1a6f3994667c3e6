"""Runs the real tool on programs and records what the generated modules do."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import build
from .paths import CACHE, JOBS, REPO, STUB
from .render import header

BATCH = 24
DIAG = re.compile(r"^(?P<file>[^\n:]*):(?P<line>\d+):\d+: (?P<sev>error|warning|fatal error): (?P<msg>.*)$", re.M)


class Env:
    """Everything needed to run the code under test."""

    def __init__(self):
        self.tool = build.build_tool()
        self.inc, self.rec, self.pch = build.build_stub()
        os.makedirs(os.path.join(CACHE, "tmp"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=os.path.join(CACHE, "tmp"))
        self.count = 0
        self.hangs = 0   # runs of the tool that did not end
        self.repeat = 0  # how often every run of the tool is repeated
        self.stats = {"tool_runs": 0, "compiles": 0, "programs": 0}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def scratch(self, name):
        self.count += 1
        d = os.path.join(self.dir, "%s-%d" % (name, self.count))
        os.makedirs(d)
        return d


def sh(cmd, timeout=120, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def tool(e, cmd, **kw):
    """Runs the tool, which may hang or eat up all memory if it is broken."""
    if e.hangs >= 6:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")
    r = sh(["prlimit", "--as=8000000000", *cmd], timeout=60, **kw)
    if r.returncode == 124:
        e.hangs += 1
    return r


def tool_args(env, hdr, out, mod, std, extra=()):
    outs = out if isinstance(out, list) else [out]
    return [env.tool, "--module-name=" + mod, *sum((["-o", o] for o in outs), []), *extra, hdr, "--",
            "-std=" + std, "-I" + STUB, "-I" + STUB + "/lib", "-I" + REPO + "/public", "-ferror-limit=0"]


def diagnostics(stderr, hdr):
    """[(severity, line)] inside the header, and whether there were others."""
    out, foreign = [], []
    for m in DIAG.finditer(stderr):
        sev = "warning" if m["sev"] == "warning" else "error"
        if os.path.basename(m["file"]) == os.path.basename(hdr):
            out.append((sev, int(m["line"]), m["msg"]))
        else:
            foreign.append((sev, m["file"], m["msg"]))
    return out, foreign


def run_tool(env, progs_items, d, mod, std):
    text, where = header(progs_items)
    hdr = os.path.join(d, "input.h")
    out = os.path.join(d, "out.cpp")
    with open(hdr, "w") as f:
        f.write(text)
    r = tool(env, tool_args(env, hdr, out, mod, std))
    env.stats["tool_runs"] += 1
    r.prints = [fingerprint(r, out)]
    for n in range(env.repeat):
        again = os.path.join(d, "again%d.cpp" % n)
        r2 = tool(env, tool_args(env, hdr, again, mod, std), env={**os.environ, "MALLOC_PERTURB_": str(17 + 40 * n), "VERIF_PAD": "x" * (977 * n)})
        env.stats["tool_runs"] += 1
        r.prints.append(fingerprint(r2, again))
    return r, hdr, out, where


def fingerprint(r, out):
    """Everything a run of the tool leaves behind, abbreviated."""
    h = hashlib.sha256(("%d\n%s" % (r.returncode, r.stderr)).encode())
    if os.path.exists(out):
        with open(out, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def compile_and_run(env, d, outs, std, name="a"):
    outs = outs if isinstance(outs, list) else [outs]
    exe = os.path.join(d, name + ".out")
    objs = []
    env.stats["compiles"] += 1
    for o in outs:
        obj = o + ".o"
        flags = [f if not f.startswith("-std=") else "-std=" + std for f in build.STUB_FLAGS]
        pch = ["-include", env.pch] if std == "c++17" else []
        r = sh(["g++", *flags, *pch, *env.inc, "-c", o, "-o", obj], timeout=300)
        if r.returncode != 0:
            return None, "compile: " + r.stderr[:3000]
        objs.append(obj)
    r = sh(["g++", *objs, env.rec, "-o", exe])
    if r.returncode != 0:
        return None, "link: " + r.stderr[:3000]
    log = os.path.join(d, name + ".log")
    r = sh([exe], env={**os.environ, "VERIF_LOG": log}, timeout=60)
    lines = []
    if os.path.exists(log):
        with open(log, errors="replace") as f:
            for line in f:
                try:
                    lines.append(json.loads(line))
                except ValueError:
                    return None, "garbled log"
    if r.returncode != 0 or not lines or lines[-1]["e"] != "end":
        return None, "import crashed (%d)" % r.returncode
    return lines, ""


# --------------------------------------------------------------------------
# raw log lines -> events of the specification

E0 = {"e": "", "c": "", "n": "", "d": 0, "v": "", "args": [], "doc": "", "pol": "", "keep": [], "bases": [],
      "ops": [], "flags": [], "set": 0, "opts": [], "bt": []}


def strip_wrap(text, wrap):
    """Removes the wrapper namespace from C++ and Python names."""
    if not wrap:
        return text
    text = re.sub(r"(?<![\w:])(::)?%s::" % wrap, "", text)
    return text


def bare(text):
    """A C++ type name without template arguments."""
    out, depth = "", 0
    for c in text:
        depth -= c == ">"
        if not depth and c not in "<>":
            out += c
        depth += c == "<"
    return out


def adapt(lines, prog, number, wrap):
    """Canonical events of one program from the (already filtered) raw lines."""
    types = {}
    for i in range(1, len(prog) + 1):
        if prog[i]["k"] in ("rec", "enum"):
            args = ", ".join(a["s"] for a in prog[i]["ref"]["a"])
            types[prog.qual(i) + ("<%s>" % args if args else "")] = i
    out = []

    def path(c):
        if wrap:
            if c == "." + wrap:
                return ""
            if c.startswith("." + wrap + "."):
                return name(c[len(wrap) + 1:])
        return c

    def typ(t):
        t = text(t)
        return types.get(t, types.get(bare(t), -2))

    def text(t):
        return strip_wrap(t, wrap).replace("> >", ">>").replace("> >", ">>")

    def name(n):
        # arguments of templates are named with their namespace
        return n.replace("_" + wrap + "_", "_") if wrap else n

    def hit(h):
        if h == 0:
            return 0
        if h < 0:
            return -1
        return h - number * 1000 if h // 1000 == number else -3

    def args(raw):
        return [{"n": a["n"], "nc": a["nc"], "req": not a["none"],
                 "d": "-" if a["d"] is None else strip_wrap(a["d"], wrap)} for a in raw]

    for raw in lines:
        e = dict(E0)
        kind = raw["e"]
        e.update(e=kind, c=path(raw["c"]), n=name(raw.get("n", "")))
        if "doc" in raw:
            e["doc"] = raw["doc"]
        if "args" in raw:
            e["args"] = args(raw["args"])
            e["pol"] = raw["policy"]
            e["keep"] = raw["keep"]
            e["flags"] = sorted(raw["flags"])
        if kind in ("class", "enum"):
            e["d"] = typ(raw["t"])
            e["v"] = text(raw["t"])
            if kind == "class":
                e["bases"] = [typ(b) for b in raw["bases"]]
                e["bt"] = [text(b) for b in raw["bases"]]
                e["opts"] = [strip_wrap(o, wrap) for o in raw["opts"]]
        elif kind in ("def", "def_static"):
            e["d"] = hit(raw["hit"])
            if "is_operator" in raw["flags"]:
                e["ops"] = raw["ops"]
            if raw["sig"].startswith("std::") and "lshift" in raw["n"]:
                pass
        elif kind == "init":
            e["d"] = hit(raw["hit"])
            if e["d"] > 0 and prog[e["d"]]["p"] != typ(raw["t"]):
                mine = typ(raw["t"])
                inherits = any(x["k"] == "inh" and x["p"] == mine for x in prog.d)
                if not (inherits and raw["sig"] and not prog[e["d"]]["cm"]):
                    e["d"] = 0  # an implicit constructor calling that of a base
        elif kind == "implicit":
            e["d"] = typ(raw["to"])
            e["n"] = ""
            e["v"] = strip_wrap(raw["from"], wrap)
        elif kind == "attr":
            v = raw["v"]
            if raw["n"] == "verif_manual":
                e.update(e="manual", n="", d=hit(int(v)))
            elif v.startswith("obj:"):
                e.update(e="alias", v=path(v[4:]))
            else:
                e["v"] = v
        elif kind == "note":
            e.update(e="manual", c="*", n="", d=hit(int(raw["v"])))
        elif kind in ("readwrite", "readonly", "readwrite_static", "readonly_static"):
            e["v"] = raw["v"]
        elif kind == "value":
            e["v"] = raw["v"]
        elif kind == "export_values":
            e["e"] = "export"
        elif kind == "property":
            e["d"] = hit(raw["get"]["hit"])
            e["set"] = hit(raw["set"]["hit"]) if raw["set"] else 0
        elif kind == "module":
            pass
        elif kind == "duplicate":
            e["n"] = path(raw["n"])
        else:
            continue
        e["d"] = int(e["d"])
        out.append(e)
    return out


def belongs(raw, wrap, number):
    """Does a raw line of a batch belong to the program wrapped in `wrap`?"""
    kind = raw["e"]
    if kind == "implicit":
        return re.search(r"(?<![\w:])%s::" % wrap, raw["to"]) is not None
    if kind == "note":
        return int(raw["v"]) // 1000 == number
    if kind == "duplicate":
        c = raw["n"]
    else:
        c = raw["c"]
    return c == "." + wrap or c.startswith("." + wrap + ".")


def blank():
    return {"exit": 0, "errs": [], "warns": [], "foreign": 0, "events": [], "built": "no", "output": False, "why": "", "prints": []}


def observe_one(env, prog, compile_it=True):
    """Runs one program on its own; returns the observation."""
    d = env.scratch("one")
    wrap = "p1" if prog.w else None
    r, hdr, out, where = run_tool(env, [(prog, 1, wrap)], d, prog.mod, prog.std)
    env.stats["programs"] += 1
    diags, foreign = diagnostics(r.stderr, hdr)
    obs = blank()
    obs.update(exit=r.returncode, output=os.path.exists(out), prints=r.prints)
    for sev, line, msg in diags:
        i = where.get(line, (0, 0))[1]
        obs["errs" if sev == "error" else "warns"].append(i)
    obs["errs"] = sorted(set(obs["errs"]))
    obs["warns"].sort()
    obs["foreign"] = sum(1 for f in foreign if f[0] == "error")
    if r.returncode not in (0, 1):
        obs["why"] = "tool died with status %d" % r.returncode
    if r.returncode == 0 and compile_it:
        lines, why = compile_and_run(env, d, out, prog.std)
        finish_single(obs, lines, why, prog, wrap)
    elif r.returncode != 0:
        obs["why"] = obs["why"] or "\n".join(l for l in r.stderr.splitlines() if ": error" in l)[:600]
    shutil.rmtree(d, ignore_errors=True)
    return obs


def finish_single(obs, lines, why, prog, wrap):
    if lines is None:
        obs["built"], obs["why"] = "failed", why
        return
    obs["built"] = "yes"
    if wrap:
        own = [x for x in lines if belongs(x, wrap, 1)]
    else:
        own = [x for x in lines if x["e"] not in ("import", "end")]
    obs["events"] = adapt(own, prog, 1, wrap)


def observe(env, progs, compile_ok=True, batch=None):
    """Observations of all programs; wrapped programs are observed several at a time where that is possible."""
    obs = [None] * len(progs)
    groups, single = {}, []
    for i, p in enumerate(progs):
        if p.w and compile_ok:
            groups.setdefault((p.mod, p.std), []).append(i)
        else:
            single.append(i)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        work = []
        for (mod, std), items in groups.items():
            size = max(1, min(batch or BATCH, (len(items) + JOBS - 1) // JOBS))
            for k in range(0, len(items), size):
                work.append(ex.submit(observe_batch, env, progs, obs, mod, std, items[k:k + size]))
        for i in single:
            work.append(ex.submit(observe_single, env, progs, obs, i, compile_ok))
        for w in work:
            w.result()
    return obs


def observe_single(env, progs, obs, i, compile_ok=True):
    obs[i] = observe_one(env, progs[i], compile_it=compile_ok)


def observe_batch(env, progs, obs, mod, std, items):
    if len(items) == 1:
        return observe_single(env, progs, obs, items[0])
    d = env.scratch("batch")
    try:
        entries = [(progs[i], n + 1, "p%d" % (n + 1)) for n, i in enumerate(items)]
        r, hdr, out, where = run_tool(env, entries, d, mod, std)
        diags, foreign = diagnostics(r.stderr, hdr)
        if r.returncode == 0:
            lines, why = compile_and_run(env, d, out, std)
            if lines is not None:
                for n, i in enumerate(items):
                    wrap, number = "p%d" % (n + 1), n + 1
                    own = [x for x in lines if belongs(x, wrap, number)]
                    o = blank()
                    o.update(exit=0, built="yes", output=True, events=adapt(own, progs[i], number, wrap),
                             batch=items, prints=r.prints)
                    for sev, line, msg in diags:
                        pos, j = where.get(line, (0, 0))
                        if pos == n:
                            o["errs" if sev == "error" else "warns"].append(j)
                    o["warns"].sort()
                    obs[i] = o
                    env.stats["programs"] += 1
                return
        culprits = {where[line][0] for sev, line, msg in diags if sev == "error" and line in where}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if culprits and len(culprits) < len(items):
        # everything that is diagnosed is looked at separately
        for n in culprits:
            observe_single(env, progs, obs, items[n])
        return observe_batch(env, progs, obs, mod, std, [i for n, i in enumerate(items) if n not in culprits])
    half = len(items) // 2
    observe_batch(env, progs, obs, mod, std, items[:half])
    observe_batch(env, progs, obs, mod, std, items[half:])
