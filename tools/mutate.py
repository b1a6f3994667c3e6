"""Measures what the checks notice: small changes of the tool, one at a time, in a scratch copy.

python3 tools/mutate.py OUT.jsonl [--file src/x.cpp ...] [--sample N] [--seed N]
Every mutant that builds is run against programs of all profiles and compared with the whole
specification. Mutants nothing notices are to be looked at by hand (they may be equivalent)."""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["src/annotated_decl.cpp", "src/annotations/annotation.cpp", "src/annotations/literal_value.cpp",
         "src/annotations/parser.cpp", "src/decl_context_graph.cpp", "src/decl_context_graph_builder.cpp",
         "src/decl_context_graph_processing.cpp", "src/expose.cpp", "src/inspect_graph.cpp",
         "src/instantiate_annotated_templates.cpp", "src/instantiate_default_arguments.cpp",
         "src/lookup_context_collector.cpp", "src/pragmas.cpp", "src/sort_decls.cpp", "src/string_utils.cpp",
         "src/visible_decls.cpp", "src/tool.cpp"]


def mutants(path, text):
    """(description, new text) for every small change."""
    lines = text.split("\n")
    out = []

    def put(i, new, what):
        out.append(("%s:%d %s" % (path, i + 1, what), "\n".join(lines[:i] + [new] + lines[i + 1:])))

    for i, line in enumerate(lines):
        s = line.strip()
        if not s or s.startswith(("//", "#", "assert", "using ", "template", "}", "namespace")):
            continue
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) ?\{?)$", line)
        if m and ";" not in m[2] and m[2].count("(") == m[2].count(")"):
            put(i, m[1] + "!(" + m[2] + ")" + m[3], "negate condition: " + s)
        for a, b in [(" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "), (" < ", " <= "), (" >= ", " > "),
                     (" > ", " >= "), (" <= ", " < "), ("true", "false"), ("false", "true"), (" + 1", ""), (" - 1", ""),
                     ("AS_public", "AS_protected"), ("AS_private", "AS_public"), ("AS_protected", "AS_private"),
                     ("any_of", "all_of"), ("all_of", "any_of"), ("none_of", "any_of"), ("value_or(true)", "value_or(false)")]:
            if a in line and not re.search(r"^\s*//", line):
                for k in [m.start() for m in re.finditer(re.escape(a), line)]:
                    put(i, line[:k] + b + line[k + len(a):], "%s -> %s: %s" % (a.strip(), b.strip(), s))
        prev = lines[i - 1].strip() if i else ""
        whole = prev.endswith((";", "{", "}", ":")) or not prev or prev.startswith("//")
        if s.endswith(";") and whole and not re.match(r"^(return .*|[\w:<>*& ,]+ [\w*&]+( = .*|\{.*\}|\(.*\))?;|static .*|const .*|auto .*|clang::\w+ \w+.*|break;)$", s):
            put(i, re.match(r"\s*", line)[0] + ";", "delete: " + s)
        if s in ("continue;", "return;", "return false;", "return true;", "return {};", "return nullptr;", "break;"):
            if s in ("return false;", "return true;"):
                put(i, line.replace(s, "return %s;" % ("true" if "false" in s else "false")), "flip: " + s)
            elif s == "return;" or s == "continue;" or s == "break;":
                put(i, line.replace(s, ";"), "drop " + s)
        if re.match(r"^case .*:$", s):
            put(i, "", "drop " + s)
        if re.match(r"^clang::OO_\w+,$", s):
            put(i, "", "drop " + s)
        m = re.match(r"^return (.+) \? (.+) : (.+);$", s)
        if m:
            put(i, line.replace(s, "return %s ? %s : %s;" % (m[1], m[3], m[2])), "swap branches: " + s)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--file", nargs="*", default=FILES)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--match", default="")
    a = ap.parse_args()
    todo = []
    for f in a.file:
        with open(REPO + "/" + f) as h:
            todo += [(f, *m) for m in mutants(f, h.read())]
    todo = [t for t in todo if a.match in t[1]]
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    if a.list:
        for t in todo:
            print(t[1])
        return
    seen = set()
    if os.path.exists(a.out):
        with open(a.out) as h:
            seen = {json.loads(line)["mutant"] for line in h}
    work = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        for d in ("src", "include", "public"):
            shutil.copytree(REPO + "/" + d, work + "/" + d)
        for f, what, text in todo:
            if what in seen:
                continue
            with open(work + "/" + f, "w") as h:
                h.write(text)
            t0 = time.time()
            env = {**os.environ, "VERIF_REPO": work}
            try:
                r = subprocess.run([sys.executable, HERE + "/tools/everything.py", "--scale", str(a.scale)], cwd=HERE,
                                   env=env, capture_output=True, text=True, errors="replace", timeout=600)
                code, text = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                code, text = 1, "timeout"
            shutil.copy(REPO + "/" + f, work + "/" + f)
            res = {0: "SURVIVED", 1: "killed", 3: "no build"}.get(code, "failed %d" % code)
            why = next((x[:200] for x in text.splitlines() if x.startswith("reason")), "")
            with open(a.out, "a") as h:
                h.write(json.dumps({"mutant": what, "result": res, "why": why, "s": round(time.time() - t0)}) + "\n")
            print(res, what, flush=True)
    finally:
        shutil.rmtree(work)


main()
