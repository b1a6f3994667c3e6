"""Random programs with templates."""
import random

from .prog import Prog, ann, param, targ, tref

BUILTINS = ["int", "double", "bool", "char", "float"]


class TGen:
    def __init__(self, rng, wrap=0.85, p_member=0.35, p_fun=0.25, actions=(4, 11), p_dflt=0.4):
        self.p_dflt = p_dflt
        self.r = rng
        self.p = Prog("m", rng.random() < wrap)
        self.p.rel = rng.random() < 0.3
        self.p_member = p_member
        self.p_fun = p_fun
        self.actions = actions
        self.count = 0
        self.used = set()        # keys of specializations something was asked of
        self.done = set()        # explicitly instantiated or specialized
        self.moved = set()
        self.depended = set()    # templates other templates may instantiate at any time
        self.classes = []        # complete plain classes that may be arguments
        self.templates = []
        self.functions = []
        self.simple = {}         # template -> usable by value and as base

    def name(self, stem):
        self.count += 1
        return "%s%d" % (stem, self.count)

    def yes(self, p):
        return self.r.random() < p

    def anns(self, choices):
        x = self.r.random()
        for p, a in choices:
            if x < p:
                return a
            x -= p
        return []

    def vis(self, none=0.55):
        return self.anns([(none, []), (0.25, [ann("visible")]), (0.1, [ann("hidden")]), (0.05, [[]]), (0.05, [ann("dynamic_attr")])])

    def program(self):
        r = self.r
        self.scopes = [0]
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            p = r.choice([s for s in self.scopes if not s or self.p[s]["k"] == "ns"])
            # the scope has to be the one opened last (declarations are in source order)
            p = self.open if hasattr(self, "open") and self.yes(0.4) else 0
            self.section(p)
        return self.p

    def section(self, p):
        """A namespace with everything in it."""
        r = self.r
        if self.yes(0.15) and not p:
            c = 0
        else:
            anns = self.anns([(0.5, [ann("visible")]), (0.15, [[ann("module"), ann("visible")]]), (0.1, [ann("module")]),
                              (0.08, [ann("hidden")])])
            c = self.p.add("ns", self.name("n"), p, anns)
        self.fill(c, r.randint(*self.actions))

    def fill(self, c, n):
        for _ in range(n):
            r = self.r.random()
            if r < 0.12 or not self.classes:
                self.plain(c)
            elif r < 0.3 or not self.templates:
                self.class_template(c)
            elif r < 0.3 + self.p_fun * 0.5:
                self.fun_template(c)
            elif r < 0.5:
                self.outer_class(c)
            else:
                self.use(c)

    # -- declarations -------------------------------------------------------
    def plain(self, c, anns=None):
        i = self.p.add("rec", self.name("A"), c, self.vis() if anns is None else anns)
        if self.yes(0.6):
            self.p.add("fun", self.name("f"), i, ret="int")
        self.classes.append(i)
        return i

    def outer_class(self, c):
        """A plain class with member templates."""
        i = self.p.add("rec", self.name("C"), c, self.vis(0.6))
        for _ in range(self.r.choice([1, 1, 2])):
            if self.yes(0.6):
                self.class_template(i)
            else:
                self.fun_template(i)
            if self.templates and self.yes(0.3):
                self.alias(i, i)

    def tps(self, j):
        n = self.r.choice([1, 1, 1, 2, 2, 3])
        names = ["T", "U", "V", "W"]
        tps = [names[(j + k) % 4] for k in range(n)]
        tk, dflt = [], []
        for k in range(n):
            tk.append("int" if self.yes(0.2) else "class")
            dflt.append("")
        for k in range(n - 1, 0, -1):
            if not self.yes(self.p_dflt):
                break
            dflt[k] = "3" if tk[k] == "int" else "int"
        return tps, tk, dflt

    def class_template(self, c):
        p = self.p
        inside = bool(c) and p[c]["k"] == "rec"
        tps, tk, dflt = self.tps(0)
        acc = "none" if not inside else self.r.choice(["pub", "pub", "pub", "pri", "pro"])
        bases = []
        if self.yes(0.25) and self.classes:
            b = self.r.choice(self.classes)
            if self.accessible(b):
                bases.append({"t": b, "acc": "pub"})
        cands = [t for t in self.templates if self.simple[t] and self.accessible(t)]
        if self.yes(0.3) and cands and not bases:
            b = self.reference(self.r.choice(cands), (tps, tk))
            if b:
                bases.append(dict(b, acc=self.r.choice(["pub", "pub", "pub", "pri"])))
        anns = self.vis()
        if bases and self.yes(0.3):
            anns = anns + [ann(self.r.choice(["inline_base", "hide_base"]))]
        t = p.add("rec", self.name("X"), c, anns, tps=tps, tk=tk, dflt=dflt, acc=acc, bases=bases, fwd=self.yes(0.15))
        self.simple[t] = True
        self.members(t, tps, tk)
        self.templates.append(t)
        return t

    def members(self, t, tps, tk, depth=0):
        p, r = self.p, self.r
        types = [n for n, k in zip(tps, tk) if k == "class"] + ["int"]
        for _ in range(r.randint(0, 4)):
            x = r.random()
            acc = "pri" if self.yes(0.1) else "pub"
            if x < 0.45:
                params = [param("x%d" % k, r.choice(types)) for k in range(r.choice([0, 1, 1, 2]))]
                if params and params[-1]["ty"] == "int" and self.yes(0.3):
                    some = [n for n in types if n != "int"]
                    params[-1].update(d="7", dx=r.choice(
                        ["7", "int{ 7 }"] + ["sizeof(%s *) * 0 + 7" % n for n in some] +
                        ["static_cast<%s *>(nullptr) == nullptr ? 7 : 8" % n for n in some] +
                        ["(%s *)nullptr ? 8 : 7" % n for n in some]))
                p.add("fun", self.name("f"), t, self.vis(0.8) if self.yes(0.5) else [], ret=r.choice(types), params=params,
                      st=self.yes(0.2), cst=self.yes(0.3), acc=acc)
                if p.d[-1]["anns"] and any(a["n"] == "dynamic_attr" for g in p.d[-1]["anns"] for a in g):
                    p.d[-1]["anns"] = []
                if p.d[-1]["st"]:
                    p.d[-1]["cst"] = False
            elif x < 0.55:
                p.add("field", self.name("x"), t, v=str(r.randint(1, 99)), acc=acc)
            elif x < 0.65:
                self.simple[t] = False  # only completed if all members are instantiated
                j = p.add("rec", self.name("M"), t, self.vis(0.7), acc=acc)
                p.add("fun", self.name("f"), j, ret="int", params=[param("a", r.choice(types))])
            elif x < 0.75:
                j = p.add("enum", self.name("E"), t, self.anns([(0.2, [ann("visible")]), (0.1, [ann("hidden")])]), acc=acc,
                          scoped=self.yes(0.5))
                self.simple[t] = self.simple.get(t, True) and not p[j]["scoped"]
                p.add("ev", self.name("V"), j, v=str(r.randint(1, 99)))
            elif x < 0.83:
                p.add("fun", self.name("g"), t, [ann("getter_for", self.name("q"))], ret="int", cst=True)
            elif x < 0.9 and depth == 0:
                p.add("manual", "", t, [[ann("manual")]], note=True)
            elif x < 0.95 and not any(y["k"] == "ctor" and y["p"] == t for y in p.d):
                p.add("ctor", "", t)
                p.add("ctor", "", t, params=[param("a", "int"), param("b", r.choice(types))])
            else:
                # a specialization asked for by the template itself
                cands = [s for s in self.templates if self.simple[s] and self.accessible(s)]
                if cands:
                    ref = self.reference(r.choice(cands), (tps, tk))
                    if ref and self.yes(0.5):
                        p.add("field", self.name("u"), t, acc="pri", uses=[ref])
                    elif ref:
                        self.simple[t] = False
                        p.add("alias", self.name("L"), t, self.alias_anns(), acc="pub", ref=ref)

    def fun_template(self, c):
        tps, tk, dflt = self.tps(1)
        r = self.r
        inside = bool(c) and self.p[c]["k"] == "rec"
        types = [n for n, k in zip(tps, tk) if k == "class"] + ["int"]
        params = [param("x%d" % k, r.choice(types)) for k in range(r.choice([0, 1, 2]))]
        anns = self.anns([(0.5, []), (0.3, [ann("visible")]), (0.1, [ann("hidden")]), (0.05, [ann("expose_as", "fun")])])
        i = self.p.add("fun", self.name("h"), c, anns, tps=tps, tk=tk, dflt=["" for _ in tps], ret=r.choice(types),
                       params=params, acc=r.choice(["pub", "pub", "pri"]) if inside else "none", st=inside and self.yes(0.3))
        self.functions.append(i)

    # -- specializations ----------------------------------------------------
    def accessible(self, i):
        while i:
            if self.p[i]["acc"] in ("pri", "pro"):
                return False
            i = self.p.ctx(i)
        return True

    def reference(self, t, dependent=None, always=False):
        """A specialization of t; may use the parameters of a surrounding template."""
        r = self.r
        x = self.p[t]
        a = []
        for n, k in zip(x["tps"], x["tk"]):
            own = [m for m, kk in zip(*dependent) if kk == k] if dependent else []
            if own and (self.yes(0.75) or not any(z["dep"] for z in a)):
                a.append(dict(targ(r.choice(own)), dep=True))
            elif k == "int":
                a.append(targ(r.choice(["3", "4", "0"])))
            else:
                cands = [c for c in self.classes if self.accessible(c)]
                if cands and self.yes(0.35):
                    c = r.choice(cands)
                    a.append(targ(self.p.qual(c), c, "{%d}" % c))
                else:
                    a.append(targ(r.choice(BUILTINS)))
            a[-1].setdefault("dep", False)
        for k in range(len(a) - 1, 0, -1):
            if not x["dflt"] or not x["dflt"][k] or not self.yes(0.4):
                break
            a[k] = dict(targ(x["dflt"][k], 0, ""), dep=False)
        if dependent and not any(z["dep"] for z in a):
            return None
        if dependent:
            self.depended.add(t)
        return tref(t, a)

    def key(self, ref):
        return (ref["t"], tuple(z["s"] for z in ref["a"]), tuple(z["s"] for z in ref["o"]))

    def alias_anns(self):
        return self.anns([(0.3, []), (0.3, [ann("visible")]), (0.2, [ann("expose_here")]), (0.15, [ann("encourage")])])

    def alias(self, c, own=0):
        cands = [t for t in self.templates if self.accessible(t) and t != c]
        if not cands:
            return
        ref = self.reference(self.r.choice(cands))
        anns = self.alias_anns()
        key = self.key(ref)
        if any(a["n"] == "expose_here" for a in anns if isinstance(a, dict)):
            if key in self.moved and not self.yes(0.05):
                return
            self.moved.add(key)
        self.used.add(key)
        self.p.add("alias", self.name("L"), c, anns, ref=ref, acc="pub" if own else "none", td=self.yes(0.3))

    def compatible(self, t, anns):
        """Annotations of a template and of an instantiation must not contradict each other (the outcome is open)."""
        both = {a["n"] for g in self.p[t]["anns"] for a in g} | {a["n"] for a in anns if isinstance(a, dict)}
        return [] if {"visible", "hidden"} <= both else anns

    def use(self, c):
        p, r = self.p, self.r
        form = r.choice(["alias", "alias", "inst", "inst", "inst", "base", "field", "special", "fun", "funspecial", "mention"])
        if form == "alias":
            return self.alias(c)
        if form in ("fun", "funspecial"):
            cands = self.functions
        elif form in ("inst",):
            cands = self.templates
        else:
            cands = [t for t in self.templates if self.accessible(t)]
        if not cands:
            return
        t = r.choice(cands)
        ref = self.reference(t)
        key = self.key(ref)
        within = self.encloses(c, t)
        if form in ("inst", "fun"):
            if key in self.done or not within:
                return
            self.done.add(key)
            if form == "fun":
                anns = self.anns([(0.7, []), (0.1, [ann("visible")]), (0.1, [ann("hidden")]), (0.05, [ann("expose_as", self.name("z"))])])
                p.add("inst", "", c, self.compatible(t, anns), ref=ref)
            else:
                self.used.add(key)
                i = p.add("inst", "", c, self.compatible(t, self.vis(0.6)), ref=ref)
                if self.yes(0.4) and (self.simple[t] or p[t]["anns"] or p[i]["anns"]):
                    p[i]["mode"] = "extern"
        elif form == "special":
            if key in self.used or key in self.done or t in self.depended or self.scope(t) != c:
                return
            self.done.add(key)
            self.used.add(key)
            i = p.add("rec", p[t]["n"], c, self.vis(0.5), ref=ref)
            self.members(i, [], [], 1)
        elif form == "funspecial":
            if key in self.done or self.scope(t) != c:
                return
            self.done.add(key)
            sub = dict(zip(p[t]["tps"], ref["a"]))
            text = lambda s: sub[s]["x"] if s in sub else s
            p.add("fun", p[t]["n"], c, self.compatible(t, self.anns([(0.6, []), (0.2, [ann("visible")]), (0.1, [ann("hidden")])])), ref=ref,
                  ret=text(p[t]["ret"]), params=[param("y%d" % k, text(q["ty"])) for k, q in enumerate(p[t]["params"])])
        elif form == "base":
            if not self.simple[t]:
                return
            self.used.add(key)
            anns = self.vis()
            if self.yes(0.4):
                anns = anns + [ann(r.choice(["inline_base", "hide_base"]), *([p[t]["n"]] if self.yes(0.5) else []))]
            p.add("rec", self.name("D"), c, anns, bases=[dict(ref, acc=r.choice(["pub", "pub", "pri"]))])
            self.classes.append(len(p))
        elif form == "field":
            if not self.simple[t]:
                return
            self.used.add(key)
            i = p.add("rec", self.name("F"), c, self.vis())
            p.add("field", self.name("u"), i, acc="pri", uses=[ref])
        else:
            p.add("fun", self.name("f"), c, ret="int", params=[param("x", "%s<%s> *" % ("{%d}" % t, ", ".join(a["x"] for a in ref["a"] if a["x"])))])

    def scope(self, t):
        return self.p.ctx(t)

    def encloses(self, c, t):
        i = t
        while i:
            i = self.p.ctx(i)
            if i == c:
                return True
        return c == 0


def template_program(seed, **over):
    return TGen(random.Random(seed), **over).program()
