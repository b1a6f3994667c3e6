"""Entry point of all checks:  python3 -m vf.check C01 [--thorough] [--scale F]

Exit status 0: the property held on everything explored; 1: violated (with a VIOLATION line);
anything else: the check itself failed."""
import argparse
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import build, tlc
from .paths import SEED, TIER, VERIF
from .plans import PLANS
from .prog import Prog
from .render import header
from .run import Env, blank, observe, observe_batch, observe_one

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    key, _, text = line.strip().partition(" key=")[2].partition(" ")
                    out.append((key, text))
    return out


class Check:
    def __init__(self, prop, tier, seed, scale=1.0):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scale = scale
        self.start = time.time()
        self.env = None
        self.violations = []     # (reason, replay object)
        self.findings = {}       # key -> what was seen
        self.samples = []
        self.notes = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.exhaustive = []
        self.assumptions = []

    # -- helpers for plans --------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        """Number of cases for this tier."""
        n = quick if not self.thorough else (thorough if thorough is not None else quick * 12)
        return max(1, int(n * self.scale))

    def note(self, key, value=1):
        self.notes[key] = self.notes.get(key, 0) + value

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(text)

    def model(self, generated, distinct):
        self.transitions += generated
        self.states += distinct

    def case(self, text):
        self.distinct.add(hashlib.sha256(text.encode()).digest()[:12])

    def violation(self, reason, replay):
        self.violations.append((reason, replay))

    # -- conformance of programs --------------------------------------------
    def conform(self, progs, view=None, batch=None, label="random", compile_ok=True):
        """Observes the programs and validates what was seen against the specification."""
        view = view or self.prop
        step = 1500
        for k in range(0, len(progs), step):
            self.conform_some(progs[k:k + step], view, batch, label, compile_ok)
            if len(self.violations) >= 3:
                return

    def conform_some(self, progs, view, batch, label, compile_ok):
        obs = observe(self.env, progs, compile_ok, batch=batch)
        verdicts, st = tlc.validate(view, [(p.spec_json(), o) for p, o in zip(progs, obs)])
        self.model(*st)
        self.traces += len(progs)
        self.note("programs_" + label, len(progs))
        for p, o, v in zip(progs, obs, verdicts):
            self.case(p.key())
            self.note("outcome_" + ("error" if o["exit"] else "module"))
            self.note("registrations_observed", len(o["events"]))
            self.note("warnings_observed", len(o["warns"]))
        for p in progs[:1]:
            self.sample({"kind": label, "header": header([(p, 1, "p1" if p.w else None)])[0]})
        rejected = [i for i, v in enumerate(verdicts) if v[0] != "ok"]
        for i in rejected[:6]:
            self.confirm(progs, obs, i, verdicts[i][1], view, compile_ok)
        if len(rejected) > 6 and not self.violations:
            for i in rejected[6:40]:
                self.confirm(progs, obs, i, verdicts[i][1], view, compile_ok)

    def conform_real(self, progs, label="names"):
        """What the tool accepts has to compile with the real pybind11."""
        from .real import observe_real
        for k in range(0, len(progs), 1500):
            some = progs[k:k + 1500]
            obs = observe_real(self.env, some)
            verdicts, st = tlc.validate("C21", [(p.spec_json(), o) for p, o in zip(some, obs)])
            self.model(*st)
            self.traces += len(some)
            self.note("programs_" + label, len(some))
            for p, o in zip(some, obs):
                self.case(p.key())
                self.note("outcome_" + ("error" if o["exit"] else "module"))
            self.sample({"kind": label, "header": header([(some[0], 1, "p1" if some[0].w else None)])[0]})
            for p, o, v in zip(some, obs, verdicts):
                if v[0] == "ok" or len(self.violations) >= 3:
                    continue
                again, = observe_real(self.env, [p])
                (w, why), = tlc.validate("C21", [(p.spec_json(), again)])[0]
                if w == "ok":
                    self.note("unrepeatable")
                    continue
                if p.tag in [key for key, _ in known_findings(self.prop)]:
                    self.findings[p.tag] = why
                    continue
                self.violation(why, {"program": p.to_json(), "header": header([(p, 1, "p1" if p.w else None)])[0],
                                     "observation": again})

    def conform_graphs(self, progs):
        """The graphs printed by --dump-graph are those of the specification."""
        from .graph import observe_graphs
        for k in range(0, len(progs), 1500):
            some = progs[k:k + 1500]
            obs = observe_graphs(self.env, some)
            verdicts, st = tlc.validate("C24", [(p.spec_json(), o) for p, o in zip(some, obs)])
            self.model(*st)
            self.traces += len(some)
            for p, o in zip(some, obs):
                self.case(p.key())
                self.note("outcome_" + ("error" if o["exit"] else "module"))
                self.note("scopes_printed", sum(len(g) for g in o["graphs"].values()))
            self.sample({"header": header([(some[0], 1, "p1" if some[0].w else None)])[0]})
            for p, o, v in zip(some, obs, verdicts):
                if v[0] == "ok" or len(self.violations) >= 3:
                    continue
                again, = observe_graphs(self.env, [p])
                (w, why), = tlc.validate("C24", [(p.spec_json(), again)])[0]
                if w == "ok":
                    self.note("unrepeatable")
                    continue
                self.violation(why, {"program": p.to_json(), "header": header([(p, 1, "p1" if p.w else None)])[0],
                                     "observation": again})

    def conform_splits(self, jobs):
        from .split import observe_split, observe_splits
        for k in range(0, len(jobs), 64):
            some = jobs[k:k + 64]
            res = observe_splits(self.env, some)
            flat = [(p, o, j) for j, obs in zip(some, res) for p, o in zip(j[0], obs)]
            verdicts, st = tlc.validate("C09", [(p.spec_json(), o) for p, o, _ in flat])
            self.model(*st)
            self.traces += len(flat)
            self.note("headers_split", len(some))
            for (p, o, j), v in zip(flat, verdicts):
                self.case("%d %s" % (j[1], p.key()))
                self.note("outcome_" + ("error" if o["exit"] else "module"))
                self.note("pieces_observed", len(o["pieces"]))
                self.notes["most_files"] = max(self.notes.get("most_files", 0), j[1])
            for (p, o, j), v in zip(flat, verdicts):
                if v[0] == "ok" or len(self.violations) >= 3:
                    continue
                again = observe_split(self.env, j[0], j[1])
                (v2, why), = tlc.validate("C09", [(p.spec_json(), again[j[0].index(p)])])[0]
                if v2 == "ok":
                    self.note("unrepeatable")
                    continue
                entries = [(q, n + 1, "p%d" % (n + 1) if q.w else None) for n, q in enumerate(j[0])]
                self.violation(why, {"files": j[1], "program": p.to_json(), "header": header(entries)[0],
                                     "batch": [q.to_json() for q in j[0]], "observation": again[j[0].index(p)]})

    def outcomes(self, progs):
        """Does the specification expect the programs to fail?"""
        res, st = tlc.validate("C08", [(p.spec_json(), dict(blank(), exit=0)) for p in progs])
        return [v != "ok" for v, _ in res]

    def universe(self, name, quick, view=None, compile_ok=True):
        """Model checks the members of a universe and replays them in the real tool."""
        want = self.n(quick, 10 ** 6) if not self.thorough else (10 ** 6 if self.scale >= 1 else self.n(quick, quick * 12))
        d = tempfile.mkdtemp(prefix="uni-", dir=self.env.dir)
        path = os.path.join(d, "programs.json")
        out = tlc.run("Universe.tla", "MC.cfg", {"VF_UNIVERSE": name, "VF_WANT": str(want),
                                                 "VF_OFFSET": str(self.seed * 7 + 1), "VF_OUT": path})
        self.model(*tlc.stats(out))
        size, count = next(tuple(map(int, tlc.unquote(line).split("|")[1:])) for line in out.splitlines()
                           if tlc.unquote(line).startswith("UNIVERSE|"))
        with open(path) as f:
            progs = [Prog.from_json(json.loads(line)) for line in f]
        shutil.rmtree(d)
        self.exhaustive.append({"universe": name, "size": size, "replayed": count, "complete": size == count})
        self.conform(progs, view, label="universe_" + name, compile_ok=compile_ok)

    def confirm(self, progs, obs, i, why, view, compile_ok=True):
        """A rejection counts if repeating the run repeats it."""
        p = progs[i]
        o = observe_one(self.env, p, compile_ok)
        (v, again), = tlc.validate(view, [(p.spec_json(), o)])[0]
        wrap = "p1" if p.w else None
        text = header([(p, 1, wrap)])[0]
        if v != "ok":
            if o["built"] == "failed" and self.real_compiles([(p, 1, wrap)], p):
                self.note("only_recorder_failed")
                return
            self.violation(again, {"view": view, "program": p.to_json(), "header": text, "observation": o,
                                   "reason": again})
            return
        items = obs[i].get("batch")
        if items:
            redo = [None] * len(progs)
            observe_batch(self.env, progs, redo, p.mod, p.std, items)
            (v, again), = tlc.validate(view, [(p.spec_json(), redo[i])])[0]
            if v != "ok":
                entries = [(progs[j], n + 1, "p%d" % (n + 1)) for n, j in enumerate(items)]
                self.violation(again, {"view": view, "program": p.to_json(), "header": header(entries)[0],
                                       "batch": [progs[j].to_json() for j in items], "reason": again,
                                       "observation": redo[i]})
                return
        self.note("unrepeatable")
        print("NOTE: a rejection was not repeatable: %s" % why[:300])

    def real_compiles(self, entries, p):
        from .real import generated_compiles
        return generated_compiles(self.env, entries, p.mod, p.std)

    # -- the run ------------------------------------------------------------
    def run(self):
        self.env = Env()
        try:
            PLANS[self.prop](self)
        finally:
            self.env.close()

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        coverage = {"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces, "distinct_cases": len(self.distinct),
                    "samples": self.samples, **self.notes}
        if self.exhaustive:
            coverage["exhaustive_universes"] = self.exhaustive
        coverage.update({"tool_runs": self.env.stats["tool_runs"], "module_builds": self.env.stats["compiles"]})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": coverage, "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 1),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, text in known_findings(self.prop):
            if key in self.findings:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if not self.violations:
            print("OK property=%s traces=%d states=%d wall=%.0fs" % (self.prop, self.traces, self.states, ev["wall_s"]))
            return 0
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for reason, replay in self.violations[:3]:
            replay = {"property": self.prop, "reason": reason, **replay}
            text = json.dumps(replay, indent=1, default=str)
            path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                f.write(text)
            print("reason: " + reason[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=SEED)
    args = ap.parse_args()
    c = Check(args.prop, "thorough" if args.thorough else "quick", args.seed, args.scale)
    try:
        c.run()
        return c.finish()
    except build.BuildError as e:
        print("ERROR: the code under test does not build:\n%s" % e)
        return 3
    except tlc.ModelError as e:
        if c.violations:
            return c.finish()
        print("ERROR: %s" % e)
        return 4
    except Exception:
        traceback.print_exc()
        if c.violations:
            return c.finish()
        return 5


if __name__ == "__main__":
    sys.exit(main())
