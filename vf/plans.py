"""What each check explores."""
from . import defaults, gen
from .gen import ann, misused_program, random_program
from .prog import Prog
from .tgen import template_program

PLANS = {}


def plan(prop):
    def reg(f):
        PLANS[prop] = f
        return f
    return reg


def programs(c, n, tag, **over):
    out = []
    for i in range(n):
        p = random_program("%s/%s/%d/%d" % (c.prop, tag, c.seed, i), **over)
        p.tag = tag
        out.append(p)
    return out


def mix(c, table):
    """table: (tag, quick count, profile); conformance of random programs of every profile."""
    progs = []
    for tag, n, over in table:
        progs += programs(c, c.n(n), tag, **over)
    c.conform(progs)


ALIASES = dict(p_here=0.4, p_enc=0.25, ns={"alias": 5, "rec": 4, "ns": 3, "enum": 1, "fun": 0.5},
               rec={"alias": 3, "rec": 3, "fun": 1, "enum": 1, "field": 0.5})
OPS = dict(rec={"op": 4, "fun": 1, "field": 0.5, "rec": 1}, ns={"rec": 4, "op": 4, "ns": 1, "fun": 0.5, "enum": 0.3},
           pure_ops=True)
NAMESPACES = dict(p_reopen=0.7, ns={"ns": 6, "rec": 2, "fun": 2, "enum": 1, "var": 1, "alias": 0.5, "manual": 0.3,
                                    "extern": 0.5})
CALLS = dict(ns={"fun": 5, "rec": 3, "ns": 1, "enum": 1, "var": 0.5},
             rec={"fun": 5, "ctor": 3, "op": 1, "conv": 0.5, "rec": 0.5, "field": 0.5, "dtor": 0.2, "using": 0.3, "inh": 0.6},
             p_top_visible=0.9, rich_defaults=True, p_default_arg=0.5, p_virtual=0.25, p_rich_types=0.2)
BASES = dict(p_base=0.9, p_inline=0.6, p_hide=0.3, ns={"rec": 6, "ns": 1, "alias": 0.3},
             rec={"fun": 3, "field": 1, "var": 1, "ctor": 0.4, "rec": 0.7, "enum": 0.2, "op": 0.5, "using": 0.5,
                  "manual": 0.1, "inh": 0.5},
             names=["a", "b", "A", "B", "C", "D", "foo", "bar"], p_top_visible=0.8)
ENUMS = dict(ns={"enum": 6, "rec": 2, "ns": 1, "alias": 0.5}, rec={"enum": 4, "rec": 1, "alias": 0.5, "fun": 0.5},
             p_top_visible=0.7, p_expsemantics=0.6, p_doc=0.5)
VARS = dict(ns={"var": 5, "rec": 3, "ns": 2, "enum": 0.3, "using": 0.5},
            rec={"field": 4, "var": 3, "rec": 1, "ctor": 0.3, "using": 0.3}, p_top_visible=0.7, p_private=0.25)
MANUAL = dict(ns={"manual": 4, "rec": 2, "ns": 2, "fun": 1, "enum": 0.3}, rec={"manual": 4, "fun": 2, "rec": 1},
              p_top_visible=0.7, wrap=0.5)
FULL = dict(decls=(14, 34), wrap=0.9, depth=4)


@plan("C01")
def c01(c):
    c.universe("visibility", 350)
    c.universe("visibility_deep", 150)
    mix(c, [("default", 400, {}), ("annotated", 300, dict(p_ann=0.7, p_hidden=0.35, p_private=0.3, p_default=0.15, p_empty=0.2)),
            ("large", 150, FULL), ("aliases", 150, ALIASES), ("flat", 80, dict(wrap=0.0))])


@plan("C02")
def c02(c):
    c.universe("names", 200)
    mix(c, [("default", 300, {}), ("named", 350, dict(p_name=0.6, p_module=0.6, p_ann=0.6)), ("large", 150, FULL),
            ("namespaces", 200, dict(NAMESPACES, p_name=0.4, p_module=0.5)), ("flat", 80, dict(wrap=0.0, p_name=0.4))])


@plan("C03")
def c03(c):
    c.universe("aliases", 300)
    mix(c, [("aliases", 500, dict(ALIASES, p_mismatch=0.1)), ("cycles", 300, dict(ALIASES, p_mismatch=0.6, p_here=0.7)),
            ("large", 120, dict(ALIASES, **FULL)), ("flat", 60, dict(ALIASES, wrap=0.0))])


@plan("C04")
def c04(c):
    c.env.repeat = 2
    c.universe("order", 200)
    c.conform(templates(c, c.n(60), "templates"))
    c.universe("order_inline", 150)
    bases = dict(BASES, p_here=0.5, p_reopen=0.4, ns={"rec": 5, "ns": 2, "alias": 3, "fun": 0.5, "enum": 0.5})
    mix(c, [("moved", 350, ALIASES), ("bases", 250, bases), ("large", 120, FULL), ("namespaces", 150, NAMESPACES),
            ("large bases", 60, dict(bases, **FULL)), ("overloads", 100, CALLS), ("flat", 60, dict(bases, wrap=0.0))])


@plan("C05")
def c05(c):
    c.universe("only_expose_in", 250)
    oei = dict(NAMESPACES, p_oei=0.5, p_top_visible=0.8)
    mix(c, [("restricted", 600, oei), ("moved", 300, dict(ALIASES, p_oei=0.5)), ("flat", 100, dict(oei, wrap=0.0)),
            ("reopened", 200, dict(oei, p_inconsistent=0.3))])


@plan("C06")
def c06(c):
    c.universe("texts", 110, compile_ok=False)
    c.universe("texts_valid", 60)
    progs = []
    for i in range(c.n(40)):
        progs.append(gen.text_program("%s/any/%d/%d" % (c.prop, c.seed, i), 40, 0.5))
    c.conform(progs, label="texts", compile_ok=False)
    c.conform([gen.text_program("%s/valid/%d/%d" % (c.prop, c.seed, i), 24, 0.0) for i in range(c.n(60))],
              label="valid texts")


@plan("C07")
def c07(c):
    c.universe("misuse", 1000, compile_ok=False)
    c.universe("misuse_pairs", 1000, compile_ok=False)
    progs = []
    for tag, n, over in [("default", 500, {}), ("calls", 200, CALLS), ("aliases", 150, ALIASES), ("flat", 150, dict(wrap=0.0)),
                         ("classes", 200, dict(BASES, p_prop=0.3))]:
        for i in range(c.n(n)):
            p = misused_program("%s/%s/%d/%d" % (c.prop, tag, c.seed, i), **over)
            p.tag = tag
            progs.append(p)
    c.conform(progs, label="misuse", compile_ok=False)


@plan("C08")
def c08(c):
    """Scenarios of Tool, and random programs whose outcome the specification predicts."""
    import random
    from . import outputs
    from .render import header
    everything, st = outputs.scenarios(c.env)
    c.model(*st)
    want = len(everything) if c.thorough and c.scale >= 1 else min(len(everything), c.n(700))
    rng = random.Random("C08/%d" % c.seed)
    some = rng.sample(everything, want)
    c.exhaustive.append({"universe": "tool scenarios", "size": len(everything), "replayed": want, "complete": want == len(everything)})
    c.sample({"scenario": some[0]})
    for r in range(3 if c.thorough else 1):
        outputs.explore(c, [(sc, "%d/%d/%d" % (c.seed, r, i), None) for i, sc in enumerate(some)])
    c.universe("misuse", 200, compile_ok=False)
    progs = []
    for tag, n, over in [("default", 120, {}), ("moved", 120, dict(ALIASES, p_mismatch=0.5)),
                         ("clashes", 100, dict(BASES, p_prop=0.5, p_propclash=0.5)),
                         ("reopened", 60, dict(NAMESPACES, p_inconsistent=0.4)), ("variadic", 60, dict(CALLS, p_variadic=0.5))]:
        progs += programs(c, c.n(n), tag, **over)
    for i in range(c.n(60)):
        progs.append(misused_program("C08/%d/%d" % (c.seed, i)))
    c.conform(progs, compile_ok=False)
    texts = [header([(p, 1, "p1" if p.w else None)])[0] for p in progs[::3]]
    outcome = [fails for fails in c.outcomes(progs[::3])]
    chosen = []
    for i, (text, fails) in enumerate(zip(texts, outcome)):
        sc = {"fault": "late" if fails else "none", "keep": rng.random() < 0.2, "xfail": rng.random() < 0.3,
              "outs": [rng.choice(["new", "old", "link"]) for _ in range(rng.choice([1, 2, 3]))]}
        chosen.append((sc, "p%d/%d" % (c.seed, i), text))
    outputs.explore(c, chosen)


@plan("C09")
def c09(c):
    """Batches of programs in one header, spread over several files."""
    jobs = []
    tables = [("default", 8, 8, {}), ("large", 4, 8, FULL), ("classes", 6, 5, BASES), ("namespaces", 6, 6, NAMESPACES),
              ("calls", 4, 5, CALLS), ("enums", 3, 6, ENUMS), ("small", 10, 1, dict(decls=(1, 5))), ("manual", 4, 5, MANUAL),
              ("operators", 3, 5, OPS), ("moved", 4, 6, ALIASES)]
    counts = [1, 2, 3, 4, 5, 7, 8, 12]
    for tag, n, size, over in tables:
        for i in range(c.n(n)):
            ps = programs(c, size, "%s%d" % (tag, i), **over)
            ps = [p for p in ps if p.w] or ps[:1]
            jobs.append((ps, counts[(len(jobs) * 5 + c.seed) % len(counts)]))
    c.conform_splits(jobs)


@plan("C10")
def c10(c):
    c.universe("constructors", 150)
    c.universe("signatures", 150)
    c.conform(defaults.programs(), label="defaults")
    mix(c, [("calls", 600, CALLS), ("documented", 200, dict(CALLS, p_doc=0.7)), ("variadic", 100, dict(CALLS, p_variadic=0.3)),
            ("default", 100, {}), ("flat", 60, dict(CALLS, wrap=0.0))])


@plan("C11")
def c11(c):
    c.universe("policies", 350)
    pol = dict(CALLS, p_policies=0.8, p_implicit=0.7)
    mix(c, [("policies", 600, pol), ("variadic", 350, dict(pol, p_variadic=0.5)), ("flat", 60, dict(pol, wrap=0.0))])


@plan("C12")
def c12(c):
    c.universe("properties", 300)
    prop = dict(p_prop=0.8, p_top_visible=0.9, p_default_arg=0.5, p_private=0.15, p_hidden=0.15,
                ns={"rec": 5, "ns": 1, "fun": 0.3}, rec={"fun": 6, "rec": 0.6, "field": 0.4, "using": 0.3}, decls=(8, 20))
    mix(c, [("properties", 500, prop), ("clashes", 350, dict(prop, p_propclash=0.5)),
            ("inherited", 250, dict(prop, p_base=0.8, p_inline=0.7, p_hide=0.1)),
            ("inherited clashes", 150, dict(prop, p_base=0.8, p_inline=0.7, p_hide=0.1, p_propclash=0.3)),
            ("flat", 60, dict(prop, wrap=0.0))])


@plan("C13")
def c13(c):
    c.universe("operators", 400)
    c.conform(gen.operator_programs(), label="operator_table")
    ops = dict(OPS, p_top_visible=0.9)
    mix(c, [("operators", 600, ops), ("hidden", 250, dict(ops, p_ann=0.6, p_hidden=0.4, p_private=0.3, p_deleted=0.2)),
            ("bases", 200, dict(ops, p_base=0.6, p_inline=0.5)), ("streams", 250, dict(ops, p_stream=0.5, p_name=0.3)),
            ("look-alikes", 150, dict(ops, p_stream=0.2, p_name=0.3, p_shift=0.7,
                                      names=["basic_ostream", "ostream", "a", "b", "stream"])),
            ("relocated", 100, dict(ALIASES, rec={"op": 4, "rec": 1, "alias": 2}, p_here=0.5, p_top_visible=0.7)),
            ("flat", 60, dict(ops, wrap=0.0))])


@plan("C14")
def c14(c):
    c.universe("bases", 250)
    c.universe("bases2", 150)
    mix(c, [("bases", 700, BASES), ("private", 250, dict(BASES, p_private=0.35, p_hidden=0.3)),
            ("properties", 150, dict(BASES, p_prop=0.4)), ("flat", 80, dict(BASES, wrap=0.0)),
            ("virtual", 120, dict(BASES, p_virtuals=1.0))])


@plan("C15")
def c15(c):
    c.universe("reopened", 350)
    mix(c, [("reopened", 500, NAMESPACES), ("inconsistent", 400, dict(NAMESPACES, p_inconsistent=0.4)),
            ("modules", 200, dict(NAMESPACES, p_module=0.7, p_name=0.3)), ("flat", 80, dict(NAMESPACES, wrap=0.0))])


def templates(c, n, tag, **over):
    out = []
    for i in range(n):
        p = template_program("%s/%s/%d/%d" % (c.prop, tag, c.seed, i), **over)
        p.tag = tag
        out.append(p)
    return out


@plan("C16")
def c16(c):
    c.universe("templates", 300)
    progs = []
    for tag, n, over in [("templates", 700, {}), ("functions", 150, dict(p_fun=0.6)), ("flat", 60, dict(wrap=0.0)),
                         ("many", 100, dict(actions=(10, 24)))]:
        progs += templates(c, c.n(n), tag, **over)
    c.conform(progs)


@plan("C17")
def c17(c):
    c.universe("enums", 300)
    mix(c, [("enums", 800, ENUMS), ("aliases", 150, dict(ENUMS, p_here=0.5)), ("flat", 80, dict(ENUMS, wrap=0.0))])


@plan("C18")
def c18(c):
    c.universe("variables", 350)
    mix(c, [("variables", 800, VARS), ("bases", 150, dict(VARS, p_base=0.6)), ("flat", 80, dict(VARS, wrap=0.0))])


@plan("C19")
def c19(c):
    c.universe("manual", 120)
    c.universe("postamble", 36)
    mix(c, [("manual", 600, MANUAL), ("namespaces", 200, dict(MANUAL, p_reopen=0.6)), ("default", 50, {})])


@plan("C20")
def c20(c):
    from . import cli
    base = {"args": [], "name": "", "file": "input.h", "lines": [{"k": "pragma", "f": "p1.h"}, {"k": "probe", "f": ""}], "outs": 1,
            "via": "cmd", "res": False, "verbose": False, "usage": ""}
    cases = [dict(base, args=["-std=" + s]) for s in cli.STDS] + [dict(base, args=a) for a in cli.LANGS]
    cases += [dict(base, file=f) for f in cli.FILES]
    cases += [dict(base, usage=u) for u in cli.USAGE] + [dict(base, via=v, outs=n) for v in ("cmd", "db", "near") for n in (0, 1, 3)]
    cases += [dict(base, via=v, args=["-std=" + s]) for v in ("db", "near") for s in ("c++14", "gnu++17", "c++20", "gnu++2b")]
    cases += [dict(base, via=v, file=f) for v in ("db", "near") for f in ("-dash.h", "noext", "a b.h", "main.cpp")]
    cases += [dict(base, res=True, via=v) for v in ("cmd", "db", "near")] + [dict(base, verbose=True, via=v) for v in ("cmd", "db", "near")]
    cases += [dict(base, lines=[{"k": k, "f": ""}] + base["lines"]) for k in ("bad", "alien") for _ in range(24)]
    pairs = [dict(base, args=["-std=" + a, "-std=" + b]) for a in cli.STDS for b in cli.STDS]
    cases += pairs if c.thorough else pairs[c.seed % 6::6]
    cases += [cli.case("C20/%d/%d" % (c.seed, i)) for i in range(c.n(400))]
    c.sample({"case": cases[-1]})
    for k in range(0, len(cases), 2000):
        cli.explore(c, [(x, "%d/%d" % (c.seed, i)) for i, x in enumerate(cases[k:k + 2000])])


@plan("C21")
def c21(c):
    """Clashing names, and everything else, compiled with the real pybind11."""
    odd = dict(names=gen.NASTY, pnames=gen.NASTY_PARAMS, p_private=0.0, p_top_visible=0.9, p_reopen=0.4)
    progs = []
    for tag, n, over in [("names", 240, dict(odd, **FULL)), ("flat", 90, dict(odd, wrap=0.0)),
                         ("calls", 200, dict(CALLS, **odd, p_variadic=0.1)), ("operators", 80, dict(OPS, **odd)),
                         ("moved", 100, dict(ALIASES, **odd)), ("bases", 120, dict(BASES, **odd)),
                         ("values", 60, dict(VARS, **odd)), ("enums", 40, dict(ENUMS, **odd)),
                         ("options", 30, dict(odd, p_dyn=0.4, p_doc=0.6))]:
        over["p_private"] = 0.0
        progs += programs(c, c.n(n), tag, **over)
    # what is not public cannot be used from the generated code
    progs += [p for p in templates(c, c.n(140), "templates")
              if not any(x["acc"] in ("pri", "pro") and (x["anns"] or x["tps"] or x["k"] != "field") for x in p.d)]
    # known finding: the type is called just `context`, which is also a variable
    p = Prog(w=False)
    p.tag = "inline-context"
    p.add("rec", "context", p.add("ns", "v1", 0, [ann("visible")], inl=True))
    # known finding: the default argument of an unused function is instantiated
    q = Prog(w=False)
    q.tag = "default-instantiation"
    q.add("other", "Unused", 0, text="template <class T> struct Unused { void f(T x = T(0)); };")
    q.add("other", "unused", 0, text="inline Unused<int *> *unused() { struct S {}; return sizeof(Unused<S>) ? nullptr : nullptr; }")
    q.add("fun", "f", 0, [ann("visible")], ret="void")
    c.conform_real(progs + [p, q])


@plan("C22")
def c22(c):
    c.universe("visibility", 250)
    c.universe("aliases", 200)
    warn = dict(p_ann=0.6, p_hidden=0.4, p_hide=0.5, p_inline=0.5, p_base=0.6)
    mix(c, [("hidden", 500, warn), ("moved", 350, dict(ALIASES, p_hidden=0.4, p_ann=0.6)), ("default", 100, {}),
            ("qualified", 150, dict(ALIASES, p_cvq=0.4, p_via=0.6)), ("flat", 60, dict(warn, wrap=0.0))])


@plan("C23")
def c23(c):
    c.universe("class_options", 200)
    opts = dict(p_holder=0.35, p_dyn=0.35, p_doc=0.5, p_base=0.5, p_top_visible=0.7,
                ns={"rec": 6, "ns": 2, "alias": 1, "enum": 0.3}, rec={"rec": 4, "alias": 1, "fun": 0.5, "enum": 0.3})
    mix(c, [("options", 600, opts), ("moved", 250, dict(opts, p_here=0.6, ns={"rec": 5, "alias": 4, "ns": 2})),
            ("large", 80, dict(opts, **FULL)), ("flat", 60, dict(opts, wrap=0.0))])


@plan("C24")
def c24(c):
    progs = []
    for tag, n, over in [("default", 150, {}), ("aliases", 250, ALIASES), ("namespaces", 200, dict(NAMESPACES, p_inconsistent=0.1)),
                         ("nested", 150, dict(FULL)), ("hidden", 150, dict(p_ann=0.6, p_hidden=0.4)), ("flat", 200, dict(ALIASES, wrap=0.0))]:
        # inline namespaces and classes without name are not named the same way in graphs
        progs += programs(c, c.n(n), tag, p_inlinens=0.0, p_anon=0.0, **over)
    progs += templates(c, c.n(120), "templates", wrap=0.0, p_dflt=0.0)
    c.conform_graphs(progs)
