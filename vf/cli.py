"""Runs the tool on cases of spec/Cli.tla."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import tempfile

from . import tlc
from .outputs import read, write
from .paths import CACHE, JOBS, REPO, STUB
from .run import sh, tool

STDS = ["c++98", "c++03", "c++0x", "c++11", "c++14", "c++1y", "c++17", "c++1z", "c++20", "c++2a", "c++23", "c++2b", "c++26",
        "c++2c", "gnu++98", "gnu++11", "gnu++14", "gnu++17", "gnu++1z", "gnu++20", "gnu++2a", "gnu++23", "gnu++2b", "gnu++26",
        "c89", "c99", "c11", "c17", "c2x", "gnu89", "gnu99", "gnu11", "gnu17", "gnu2x", "iso9899:1999"]
LANGS = [["-xc"], ["-x", "c"], ["-x", "c++"], ["-xc++"], ["-xc++-header"], ["-x", "c-header"], ["-xobjective-c"], ["-x", "none"]]
FILES = ["input.h", "a-b.h", "a.b.hpp", "1st.h", "_x.h", "a b.h", "noext", "x..h", "a--b.h", "trailing-.h", "CamelCase.hh", "9.h",
         "12+34.h", "ünï.h", "a.h", "class.h", "__init__.h", "x.tar.gz", "-dash.h", "a_1.hxx", "é.h", "int.h", "UPPER.H", "main.cpp"]
BAD = ["#pragma genpybind", "#pragma genpybind frobnicate", "#pragma genpybind include", "#pragma genpybind include 3",
       "#pragma genpybind include \"p1.h\" extra", "#pragma genpybind include \"\"", "#pragma genpybind include <>",
       "#pragma genpybind include \"not-there.h\"", "#pragma genpybind include <p1.h", "#pragma genpybind define SEEN_p9",
       "#pragma genpybind \"p1.h\"", "#pragma genpybind , include \"p1.h\"", "#pragma genpybind Include \"p1.h\"",
       "#pragma genpybind ifdef __GENPYBIND__", "#pragma genpybind error no"]
ALIEN = ["#pragma GENPYBIND include \"p1.h\"", "#pragma genpybind_ include \"p1.h\"", "#pragma pack(push)", "#pragma pybind include <p2.h>",
         "#pragma omp genpybind include \"p1.h\"", "// #pragma genpybind include \"p1.h\"", "/* #pragma genpybind include <p2.h> */",
         "#define P1 #pragma genpybind include \"p1.h\""]
USAGE = ["relative output", "unknown option", "two inputs", "no input", "missing input", "no such graph"]
MODE = """#ifdef __cplusplus
static_assert(__cplusplus == 1, "MODE cpp");
#else
#error MODE c
#endif
#ifdef __STRICT_ANSI__
#error MODE strict
#else
#error MODE gnu
#endif
#ifdef __GENPYBIND__
#error MODE defined
#endif
#if __has_include(<only-in-resources.h>)
#error MODE resources
#endif
"""


def case(seed):
    rng = random.Random(seed)
    args = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        args += rng.choice(LANGS) if rng.random() < 0.35 else ["-std=" + rng.choice(STDS)]
    via = rng.choice(["cmd"] * 6 + ["db", "near"])
    if via == "near":
        args = [a for a in args if a.startswith("-std=") and "++" in a]
    lines, depth = [], 0
    files = ["p1.h", "p2.h", "sub/p3.h", "p4.h"]
    for _ in range(rng.choice([0, 2, 4, 6, 9])):
        k = rng.choices(["pragma", "include", "off", "on", "end", "probe", "bad", "alien"],
                        [5, 1, 0.7, 0.7, 1 if depth else 0, 3, 0.12, 0.3])[0]
        if k in ("off", "on"):
            depth += 1
        elif k == "end":
            depth -= 1
        lines.append({"k": k, "f": rng.choice(files) if k in ("pragma", "include") else ""})
    lines += [{"k": "end", "f": ""}] * depth + [{"k": "probe", "f": ""}]
    return {"args": args, "name": rng.choice(["", "", "mod", "a_b", "_x9", "M"]), "file": rng.choice(FILES), "lines": lines,
            "outs": rng.choice([0, 1, 1, 1, 2, 3]), "via": via, "verbose": rng.random() < 0.2, "res": rng.random() < 0.1,
            "usage": rng.choice(USAGE) if rng.random() < 0.06 else ""}


def render(c, seed):
    """The input, and the headers it needs besides p1.h etc."""
    rng = random.Random(seed)
    out, nested = ["#pragma once", "#include <genpybind/genpybind.h>"], {}
    for n, x in enumerate(c["lines"], 1):
        f = rng.choice(['"%s"', "<%s>"]) % x["f"]
        if x["k"] == "pragma":
            text = rng.choice(["#pragma genpybind include %s", "#  pragma  genpybind\tinclude  %s", "#pragma genpybind include%s",
                               "#pragma genpybind include %s // see there", "#pragma genpybind include %s /* see there */",
                               "#pragma genpybind /* this */ include %s", " # pragma genpybind include %s  "]) % f
            if rng.random() < 0.2:
                nested["nested%d.h" % n] = "#pragma once\n" + text + "\n"
                text = '#include "nested%d.h"' % n
        elif x["k"] == "bad":
            text = rng.choice(BAD)
        elif x["k"] == "alien":
            text = rng.choice(ALIEN)
        elif x["k"] == "include":
            text = "#include " + f
        elif x["k"] == "off":
            text = rng.choice(["#if 0", "#ifndef __GENPYBIND__", "#ifdef NOT_DEFINED"])
        elif x["k"] == "on":
            text = rng.choice(["#if 1", "#ifdef __GENPYBIND__"])
        elif x["k"] == "end":
            text = "#endif"
        else:
            text = "\n".join("#ifdef SEEN_%s\nvoid GENPYBIND(visible) saw_%d_%s();\n#endif" % (m, n, m) for m in ("p1", "p2", "p3", "p4"))
        out.append(text)
    return "\n".join(out) + "\n", nested


def observe(env, c, seed):
    root = env.scratch("cli")
    try:
        src = os.path.join(root, "src")
        os.makedirs(os.path.join(src, "sub"))
        for d in ("build", "cwd", "res/include"):
            os.makedirs(os.path.join(root, d))
        cwd = os.path.join(root, "cwd")
        write(os.path.join(root, "res/include/only-in-resources.h"), "")
        hdr = os.path.join(src, c["file"])
        flags = [*c["args"], *(["-I" + src] if c["via"] == "cmd" else []), "-I" + STUB, "-I" + STUB + "/lib", "-I" + REPO + "/public"]
        name = (["--module-name=" + c["name"]] if c["name"] else []) + (["--verbose"] if c["verbose"] else [])

        def run(outs, extra=()):
            """The arguments are given on the command line or in a compilation database."""
            opts = [env.tool, *name, *sum((["-o", p] for p in outs), [])]
            inputs = [hdr]
            if c["usage"] == "relative output":
                opts += ["-o", "relative.cpp"]
            elif c["usage"] == "unknown option":
                opts.append("--frobnicate")
            elif c["usage"] == "no such graph":
                opts.append("--dump-graph=all")
            elif c["usage"] == "two inputs":
                inputs.append(os.path.join(src, "p1.h"))
            elif c["usage"] == "no input":
                inputs = []
            elif c["usage"] == "missing input":
                inputs = [os.path.join(src, "not-there.h")]
            env.stats["tool_runs"] += 1
            if c["via"] == "cmd":
                return tool(env, [*opts, *inputs, "--", *flags, *extra], cwd=cwd)
            f = hdr if c["via"] == "db" else os.path.join(src, "neighbour.cpp")
            cmd = ["clang++", *flags, "-I.", *extra, "-MD", "-MF", "deps.d", "-o", "object.o", "-c", f]
            write(os.path.join(root, "build", "compile_commands.json"),
                  json.dumps([{"directory": src, "file": f, "arguments": cmd}]))
            return tool(env, [*opts, "-p", os.path.join(root, "build"), *inputs], cwd=cwd)
        # the language mode shows in what is reported
        write(hdr, MODE)
        extra = []
        if c["res"]:
            res = os.path.join(root, "res")
            extra = ["-resource-dir=" + res] if random.Random(seed).random() < 0.5 or c["via"] == "near" else ["-resource-dir", res]
        r = run(["-"], extra)
        level = re.search(r"'(\d+)L == 1'", r.stderr)
        o = {"cpp": "MODE cpp" in r.stderr and "MODE c\n" not in r.stderr, "gnu": "MODE gnu" in r.stderr,
             "def": "MODE defined" in r.stderr, "level": level[1] if level else "", "names": [], "includes": [], "saw": [],
             "code": 0, "why": "", "res": "MODE resources" in r.stderr, "left": []}
        if re.search(r"error: (?!MODE|static)", r.stderr):
            o.update(code=1, why=r.stderr[-500:])
        text, nested = render(c, seed)
        write(hdr, text)
        for n in ("p1", "p2", "sub/p3", "p4"):
            write(os.path.join(src, n + ".h"), "#define SEEN_%s\n" % os.path.basename(n))
        for n, t in nested.items():
            write(os.path.join(src, n), t)
        outs = [os.path.join(root, "out%d.cpp" % n) for n in range(c["outs"])]
        before = files(root)
        r = run(outs)
        if not outs and r.returncode == 0:
            outs = [os.path.join(root, "out0.cpp")]
            write(outs[0], r.stdout)
        o["left"] = sorted(files(root) - before - (set(outs) if r.returncode == 0 else set()))
        if r.returncode != 0:
            o.update(code=r.returncode, why=r.stderr[-500:])
        else:
            saw = set()
            for p in outs:
                e = sh(["g++", "-E", "-std=c++17", "-I" + src, *[f for f in flags if f.startswith("-I")], p])
                if e.returncode != 0:
                    o.update(code=e.returncode, why="preprocessing: " + e.stderr[-500:])
                    break
                entered = [os.path.relpath(undo(f), src) for f in included(e.stdout) if undo(f).startswith(src)]
                o["includes"].append(["input" if f == c["file"] else f for f in entered if f == c["file"] or f in
                                      ("p1.h", "p2.h", "sub/p3.h", "p4.h")])
                m = re.findall(r"ModuleInit\s+verif_module_(\w*)", e.stdout)
                o["names"].append(" ".join(m))
                saw |= set(re.findall(r"\bsaw_(\d+)_(p\d)\b", own(e.stdout, p)))
            o["saw"] = sorted([int(n), "sub/p3.h" if f == "p3" else f + ".h"] for n, f in saw)
        return o, {"case": c, "header": text, "nested": nested}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def files(root):
    return {os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if f != "compile_commands.json"}


def included(text):
    """The files included by the preprocessed file itself."""
    out, depth = [], 0
    for name, flags in re.findall(r'^# \d+ "([^"]*)"((?: \d)*)$', text, re.M):
        if " 1" in flags:
            if depth == 0:
                out.append(name)
            depth += 1
        elif " 2" in flags:
            depth -= 1
    return out


def undo(name):
    return name.encode().decode("unicode_escape").encode("latin1", "replace").decode("utf-8", "replace") if "\\" in name else name


def own(text, path):
    """The lines of preprocessed text that stem from `path` itself."""
    out, mine = [], False
    for line in text.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', line)
        if m:
            mine = m[1] == path
        elif mine:
            out.append(line)
    return "\n".join(out)


def judge(pairs):
    d = tempfile.mkdtemp(prefix="cli-", dir=os.path.join(CACHE, "tmp"))
    try:
        path = os.path.join(d, "pairs")
        with open(path, "w") as f:
            for c, o in pairs:
                f.write(json.dumps({"c": c, "obs": o}) + "\n")
        out = tlc.run("Cli.tla", "Cli.cfg", {"VF_PAIRS": path})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = [None] * len(pairs)
    for line in out.splitlines():
        line = tlc.unquote(line)
        if line.startswith("VF|"):
            _, i, verdict, why = line.split("|", 3)
            res[int(i) - 1] = (verdict == "ok", why)
    if None in res:
        raise tlc.ModelError("no verdict for case %d" % res.index(None))
    return res, tlc.stats(out)


def explore(c, cases):
    """cases: [(case, seed)]"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        seen = list(ex.map(lambda x: observe(c.env, *x), cases))
    verdicts, st = judge([(x, o) for (x, _), (o, _) in zip(cases, seen)])
    c.model(*st)
    c.traces += len(cases)
    for (x, seed), (o, info), v in zip(cases, seen, verdicts):
        c.case(json.dumps([x, info["header"]]))
        c.note("arguments", len(x["args"]))
        c.note("lines", len(x["lines"]))
        if v[0] or len(c.violations) >= 3:
            continue
        o2, info2 = observe(c.env, x, seed)
        (ok, why), = judge([(x, o2)])[0]
        if ok:
            c.note("unrepeatable")
        else:
            c.violation(why, {"observation": o2, **info2})
