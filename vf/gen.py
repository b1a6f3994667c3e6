"""Random well-formed programs.  A profile says which features to use and how often."""
import random
import re

from .prog import DEFAULT, Prog, ann, param

NAMES = ["a", "b", "c", "A", "B", "C", "foo", "bar", "Some", "Other", "x", "y", "context", "root", "lhs"]
# Names the generator uses itself, or makes up from other names
NASTY = ["context", "root", "lhs", "rhs", "pybind11", "genpybind", "std", "a", "b", "a_b", "_b", "a_", "context_a", "context_a_b",
         "a_b_1", "a_1", "b_1", "context_", "p1", "m", "arg", "class_", "module", "init", "value", "self", "parent", "detail",
         "expose", "args", "kwargs", "overload_cast", "enum_", "object", "handle", "visible", "A", "B"]
NASTY_PARAMS = ["context", "root", "lhs", "rhs", "pybind11", "std", "self", "args", "genpybind", "a", "A", "arg", "parent"]
GLOBAL = {"pybind11", "genpybind", "std", "verif"}  # not available to the outermost scope
OPS2 = ["+", "-", "*", "/", "%", "^", "&", "|", "<", ">", "<<", ">>", "==", "!=", "<=", ">="]
OPSI = ["+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="]
OPS1 = ["+", "-", "~", "*", "&", "!"]
OPSX = ["&&", "||", ",", "[]", "=", "->*"]

BASE = dict(
    decls=(6, 16), depth=3, wrap=0.85, mod="m",
    # members of namespaces
    ns={"ns": 3, "rec": 4, "enum": 2, "fun": 3, "var": 1, "alias": 2, "extern": 0.3, "manual": 0.3, "using": 0.2, "other": 0.3},
    # members of classes
    rec={"rec": 2, "enum": 1, "fun": 4, "ctor": 1, "field": 1.5, "var": 0.7, "alias": 1, "manual": 0.2,
         "conv": 0.2, "using": 0.3, "op": 0.4, "dtor": 0.2, "other": 0.15, "inh": 0.3},
    p_reopen=0.25, p_base=0.35, p_ann=0.35, p_empty=0.05, p_name=0.15, p_hidden=0.2, p_vis=0.5, p_default=0.05,
    p_private=0.15, p_module=0.3, p_oei=0.05, p_here=0.25, p_enc=0.15, p_static=0.2, p_virtual=0.15, p_pure=0.05,
    p_deleted=0.05, p_doc=0.2, p_policies=0.1, p_prop=0.0, p_free_op=0.2, p_friend=0.5, p_inline=0.3, p_hide=0.2,
    p_outofline=0.0, p_second=0.1, p_scoped=0.4, p_expsemantics=0.3, p_top_visible=0.5, p_mismatch=0.0,
    p_default_arg=0.3, p_variadic=0.0, p_inconsistent=0.0, p_overload=0.5, p_implicit=0.3, pure_ops=False,
    names=NAMES, pnames=("x", "y", "z", "this_", "root", "context", "lhs"), p_rich_types=0.0, oei_names=("m", "q"), rich_defaults=False, p_fwd=0.0, p_rel=0.5, p_propclash=0.0, p_holder=0.0, p_dyn=0.05,
    p_inlinens=0.06, p_anon=0.06, p_junk=0.04, p_again=0.06, p_key=0.2, p_attr=0.03,
    p_virtuals=0.12, p_via=0.2, p_cvq=0.08, p_noexcept=0.1, p_stream=0.0, p_shift=0.0,
)


class Gen:
    def __init__(self, rng, **over):
        self.r = rng
        self.f = {**BASE, **over}
        self.virtuals = rng.random() < self.f["p_virtuals"]
        if self.virtuals:  # members of virtual bases cannot be inlined
            self.f.update(p_inline=0.0, rec={**self.f["rec"], "ctor": 0, "using": 0, "inh": 0})
        self.p = Prog(self.f["mod"], rng.random() < self.f["wrap"])
        self.p.rel = rng.random() < self.f["p_rel"]
        self.pending = []    # classes still to be defined outside of their class
        self.props = {}
        self.used = {}       # canonical scope -> names
        self.closed = set()  # complete classes
        self.budget = rng.randint(*self.f["decls"])
        self.val = 100
        self.sigs = {}       # (scope, name) -> set of signatures
        self.kinds = {}      # (scope, name) -> 'fun' if overloadable
        self.here = set()
        self.ops = []        # operators: (operator, operand classes, member or free)

    # -- helpers ----------------------------------------------------------
    def yes(self, key):
        return self.r.random() < self.f[key]

    def scope_key(self, c):
        if not c:
            return 0
        x = self.p[c]
        if x["k"] == "ns":
            if self.p[x["canon"]]["inl"]:  # names are shared with the enclosing scope
                return self.scope_key(self.ctx(x["p"]))
            return x["canon"]
        return c

    def ctx(self, c):
        while c and self.p[c]["k"] == "extern":
            c = self.p[c]["p"]
        return c

    def taken(self, c):
        return self.used.setdefault(self.scope_key(self.ctx(c)), set())

    def fresh(self, c, pool=None):
        t = self.taken(c)
        forbidden = set(t)
        cc = self.ctx(c)
        if cc and self.p[cc]["k"] == "rec":
            forbidden.add(self.p[cc]["n"])
        if not self.p.w and not cc:
            forbidden |= GLOBAL
        if not self.p.w and cc and self.p[cc]["inl"]:
            forbidden |= GLOBAL | {"context"}  # known finding of C21
        opts = [n for n in (pool or self.f["names"]) if n not in forbidden]
        if not opts:
            k = 0
            while "n%d" % k in forbidden:
                k += 1
            opts = ["n%d" % k]
        n = self.r.choice(opts)
        t.add(n)
        return n

    def value(self):
        self.val += 1
        return str(self.val)

    def accessible(self, i):
        while i:
            if self.p[i]["acc"] in ("pri", "pro"):
                return False
            i = self.ctx(self.p[i]["p"])
        return True

    def enclosing(self, c):
        out = set()
        while c:
            out.add(c)
            c = self.p[c]["p"]
        return out

    def tags(self, kinds=("rec", "enum"), here=0):
        return [i for i in range(1, len(self.p) + 1)
                if self.p[i]["k"] in kinds and self.accessible(i)
                and (self.p[i]["k"] == "enum" and i not in self.enclosing(here) or i in self.closed)]

    def acc(self, c):
        c = self.ctx(c)
        if not c or self.p[c]["k"] != "rec":
            return "none"
        if self.yes("p_private"):
            return self.r.choice(["pri", "pro"])
        return "pub"

    # -- annotations ------------------------------------------------------
    def common(self):
        """A list of annotations valid on any declaration."""
        r = self.r
        out = []
        if self.yes("p_vis"):
            out.append(r.choice([ann("visible"), ann("visible", True), ann("visible")]))
        if self.yes("p_hidden"):
            out.append(r.choice([ann("hidden"), ann("visible", False)]))
        if self.yes("p_default"):
            out.append(ann("visible", DEFAULT))
        if self.yes("p_name"):
            out.append(ann("expose_as", self.pyname()))
            if r.random() < 0.15:
                out.append(ann("expose_as", DEFAULT))
        r.shuffle(out)
        return out

    def pyname(self):
        return self.r.choice(["One", "Two", "three", "_four", "Five5", "a", "A"])

    def groups(self, anns):
        """Splits annotations over one or two attributes."""
        r = self.r
        if not anns:
            return [[]] if r.random() < self.f["p_empty"] else []
        if len(anns) > 1 and r.random() < self.f["p_second"]:
            k = r.randint(1, len(anns) - 1)
            return [anns[:k], anns[k:]]
        return [anns]

    def annotate(self, extra=()):
        anns = list(extra)
        if self.yes("p_ann"):
            anns += self.common()
            self.r.shuffle(anns)
        return self.groups(anns)

    # -- programs ---------------------------------------------------------
    def program(self):
        while self.budget > 0:
            self.member(0, 0)
        return self.p

    def pick(self, table):
        items = [(k, w) for k, w in table.items() if w > 0]
        return self.r.choices([k for k, _ in items], [w for _, w in items])[0]

    def member(self, c, depth):
        self.budget -= 1
        cc = self.ctx(c)
        table = dict(self.f["rec"] if cc and self.p[cc]["k"] == "rec" else self.f["ns"])
        if depth >= self.f["depth"]:
            table.pop("ns", None)
            table.pop("rec", None)
            table.pop("extern", None)
        if self.p.w or c:
            # types in linkage specifications within namespaces cannot be named (known finding of C21)
            table.pop("extern", None)
        if not any(table.values()):
            return
        k = self.pick(table)
        getattr(self, "g_" + k)(c, depth)

    def body(self, c, depth):
        n = self.r.randint(0, 4) if depth else self.r.randint(1, 5)
        for _ in range(n):
            if self.budget <= 0:
                break
            self.member(c, depth + 1)

    def g_ns(self, c, depth):
        r = self.r
        cc = self.ctx(c)
        known = [i for i in range(1, len(self.p) + 1)
                 if self.p[i]["k"] == "ns" and self.p.same_scope(self.ctx(self.p[i]["p"]), cc)]
        if known and self.yes("p_reopen"):
            old = self.p[r.choice(known)]
            first = self.p[old["canon"]]
            groups = [list(g) for g in first["anns"]]
            if self.yes("p_inconsistent"):
                groups = r.choice([[], [[]], self.ns_anns(depth)])
            i = self.p.add("ns", old["n"], c, groups)
        else:
            i = self.p.add("ns", self.fresh(c), c, self.ns_anns(depth), inl=bool(cc or not self.p.w) and self.yes("p_inlinens"))
        self.body(i, depth)

    def ns_anns(self, depth):
        anns = []
        if self.yes("p_module"):
            anns.append(ann("module") if self.r.random() < 0.6 else ann("module", self.pyname()))
        if self.yes("p_oei"):
            names = [self.r.choice(self.f["oei_names"]) for _ in range(self.r.randint(1, 2))]
            anns.append(ann("only_expose_in", *names))
        if depth == 0 and self.yes("p_top_visible"):
            anns.append(ann("visible"))
        return self.annotate(anns)

    def g_extern(self, c, depth):
        i = self.p.add("extern", "", c)
        self.body(i, depth)

    def tail(self, i):
        """`typedef struct {} x;`: the unnamed type has a name for linkage purposes."""
        x = self.p[i]
        x["anon"] = True
        anns = [ann("expose_here")] if self.r.random() < self.f["p_here"] / 2 else []
        if anns:
            self.here.add(i)
        self.p.add("alias", x["n"], x["p"], self.annotate(anns), acc=x["acc"], tgt=i, td=True, tail=True)

    def anon_rec(self, c):
        i = self.p.add("rec", self.fresh(c), c, self.annotate(), acc=self.acc(c), doc=self.doc())
        for _ in range(self.r.randint(0, 3)):
            self.p.add("field", self.fresh(i), i, self.annotate(), vtype=self.r.choice(["int", "long", "unsigned"]), v="0", bare=True)
        self.closed.add(i)
        self.tail(i)

    def g_other(self, c, depth):
        cc = self.ctx(c)
        n = "Other%d" % len(self.p)
        text = self.r.choice(["template <class T> using %s = T;", "template <class T> %sconstexpr int %%s = 3;" %
                              ("static " if cc and self.p[cc]["k"] == "rec" else ""), "typedef int %s;", "using %s = long;"]) % n
        self.p.add("other", n, c, acc=self.acc(c), text=text)

    def g_rec(self, c, depth):
        r = self.r
        if self.yes("p_anon"):
            return self.anon_rec(c)
        acc = self.acc(c)
        bases = []
        cands = [t for t in self.tags(("rec",)) if not self.p[t]["anon"]]
        r.shuffle(cands)
        seen = set()
        while cands and len(bases) < 3 and self.yes("p_base"):
            b = cands.pop()
            closure = self.all_bases(b) | {b}
            if seen & closure and not (self.virtuals and b not in seen and not {x["t"] for x in bases} & closure):
                continue
            seen |= closure
            bases.append({"t": b, "acc": "pub" if r.random() < 0.8 else r.choice(["pri", "pro"])})
            if self.virtuals and not any(x["virt"] or x["pure"] for x in self.p.d if x["p"] in closure):
                bases[-1]["virt"] = r.random() < 0.6
        anns = []
        if bases and self.yes("p_hide"):
            anns.append(self.base_ann("hide_base", [b["t"] for b in bases]))
        if bases and self.yes("p_inline"):
            anns.append(self.base_ann("inline_base", sorted(seen)))
        while self.yes("p_dyn") and len(anns) < 5:
            anns.append(r.choice([ann("dynamic_attr"), ann("dynamic_attr", True), ann("dynamic_attr", False)]))
        n = self.fresh(c)
        cc = self.ctx(c)
        while self.yes("p_holder"):
            name = (self.p.qual(cc) + "::" if cc else "") + n
            anns.append(ann("holder_type", "%sstd::%s_ptr<::%s>" % (r.choice(["", "::"]), r.choice(["shared", "shared", "weak"]), name)))
        if cc and self.p[cc]["k"] == "rec" and self.lexically_outside(cc) and self.yes("p_outofline"):
            self.pending.append((c, n, anns, acc, bases, depth))
            return
        i = self.p.add("rec", n, c, self.annotate(anns), acc=acc, bases=self.callable_bases(bases), doc=self.doc(), fwd=self.yes("p_fwd"))
        self.finish_rec(i, depth)

    def callable_bases(self, bases):
        """As many of the bases as possible without making an operator of one of them ambiguous."""
        out, seen = [], set()
        for b in bases:
            more = seen | self.all_bases(b["t"]) | {b["t"]}
            if not self.confusing(more):
                out, seen = out + [b], more
        return out

    def confusing(self, classes):
        """Do unrelated ones of the classes have the same operator?"""
        mine = [(op, t) for op, _, _, ts in self.ops for t in ts if t in classes]
        return any(o == q and t != u and t not in self.all_bases(u) and u not in self.all_bases(t)
                   for o, t in mine for q, u in mine)

    def lexically_outside(self, i):
        q = self.p[i]["lex"]
        while q and self.p[q]["k"] == "extern":
            q = self.p[q]["lex"]
        return not q or self.p[q]["k"] != "rec"

    def finish_rec(self, i, depth):
        self.body(i, depth)
        self.check_inh(i)
        self.closed.add(i)
        mine = [x for x in self.pending if x[0] == i]
        self.pending = [x for x in self.pending if x[0] != i]
        for c, n, anns, acc, bases, depth in mine:
            lex = self.p[i]["lex"]
            j = self.p.add("rec", n, i, self.annotate(anns), acc=acc, bases=self.callable_bases(bases), doc=self.doc(), lex=lex)
            self.finish_rec(j, depth)

    def base_ann(self, name, cands):
        r = self.r
        x = r.random()
        if x < 0.35:
            return ann(name)
        b = self.p.qual(r.choice(cands))
        if any(x["inl"] for x in self.p.d):
            return ann(name, b.split("::")[-1])  # inline namespaces need not be mentioned
        if x < 0.5:
            return ann(name, "::" + ("p1::" if False else "") + b) if not self.p.w else ann(name, b.split("::")[-1])
        if x < 0.9:
            parts = b.split("::")
            return ann(name, "::".join(parts[r.randint(0, len(parts) - 1):]))
        return ann(name, r.choice(["Nope", "foo"]))

    def all_bases(self, c):
        out = set()
        for b in self.p[c]["bases"]:
            out |= {b["t"]} | self.all_bases(b["t"])
        return out

    def default_constructible(self, c):
        ctors = [x for x in self.p.d if x["k"] == "ctor" and x["p"] == c]
        if ctors:
            return any(all(q["d"] != "-" for q in x["params"]) and not x["del"] and x["acc"] != "pri" and not x["cm"]
                       for x in ctors)
        return all(self.default_constructible(b["t"]) for b in self.p[c]["bases"])

    def doc(self):
        return self.r.choice(DOCS) if self.yes("p_doc") else ""

    def stored(self, field):
        """Type and value of a field or variable."""
        r = self.r
        v = self.value()
        cst = r.random() < 0.3
        out = dict(v=v, cst=cst)
        how = r.random()
        if how < 0.15:
            out.update(vtype=r.choice(["long", "unsigned", "short", "::verif::plain"]))
        elif how < 0.3:
            out.update(vtype="const char *const" if cst else "const char *", vfull=True, v="'s%s'" % v, init='"s%s"' % v)
        elif how < 0.36:
            out.update(vtype="double", v=v + ".5")
        elif how < 0.5 and cst:
            out.update(vtype=r.choice(["::verif::constant", "::verif::Same<const int>", "int const"]), vfull=True)
        elif how < 0.6 and not field and cst:
            out.update(pre="constexpr ")
        elif how < 0.6 and field and not cst:
            out.update(pre="mutable ")
        return out

    def g_enum(self, c, depth):
        r = self.r
        anns = []
        while self.yes("p_expsemantics") and len(anns) < 4:
            anns.append(r.choice([ann("arithmetic"), ann("arithmetic", False), ann("export_values"),
                                  ann("export_values", False), ann("export_values", True)]))
        scoped = self.yes("p_scoped")
        acc = self.acc(c)
        i = self.p.add("enum", self.fresh(c), c, self.annotate(anns), acc=acc, scoped=scoped, doc=self.doc())
        mine = self.taken(i)
        outer = self.taken(c)
        cc = self.ctx(c)
        bad = {self.p[cc]["n"]} if cc and self.p[cc]["k"] == "rec" else set()
        doc = ""
        for _ in range(r.randint(0, 3)):
            opts = [n for n in ["V0", "V1", "V2", "V3", "A", "x"] if n not in mine and (scoped or n not in outer | bad)]
            if not opts:
                break
            n = r.choice(opts)
            mine.add(n)
            if not scoped:
                outer.add(n)
            v = self.value()
            if r.random() < 0.1:
                v = "-" + v
            # clang lets a comment also document the undocumented enumerators after it
            doc = self.doc() if not doc else "Value no. " + v.strip("-")
            self.p.add("ev", n, i, self.annotate(), v=v, doc=doc)
        if not scoped and self.yes("p_anon"):
            self.tail(i)

    def types(self, c):
        out = ["int", "double", "bool", "const char *", "long", "unsigned", "char"]
        for t in self.tags(("rec", "enum"), c)[:6]:
            out += ["const {%d} &" % t, "{%d} *" % t]
            if self.f["rich_defaults"]:
                out.append("const {%d} &" % t)
            if self.p[t]["k"] == "enum":
                out.append("{%d}" % t)
        return out

    def more_types(self, c):
        """Types of parameters whose values do not matter."""
        out = ["int *", "const int", "const int *", "const ::std::vector<int> &", "unsigned long long", "signed char",
               "const ::std::string &", "const void *", "::verif::Same<const int>", "const ::verif::Two<int, double> *"]
        for t in self.tags(("rec", "enum"), c)[:6]:
            out += ["{%d} &" % t, "const {%d} *" % t, "{%d} *const" % t, "const ::verif::Two<int, {%d}> &" % t,
                    "::verif::Two<{%d}, {%d} *> *" % (t, t), "const ::std::vector<const {%d} *> &" % t, "::verif::Same<{%d}> *" % t]
        out += ["const {%d} &" % i for i in range(1, len(self.p) + 1) if self.usable_alias(i)]
        return out

    def usable_alias(self, i):
        x = self.p[i]
        return x["k"] == "alias" and x["tgt"] and not x["cvq"] and self.accessible(i)

    def canonical(self, ty):
        """Overloads must not only differ in spelling."""
        ty = re.sub(r"::verif::Same<(.*)>", r"\1", ty)
        ty = re.sub(r"\{(\d+)\}", lambda m: "{%d}" % (self.p[int(m[1])]["tgt"] if self.p[int(m[1])]["k"] == "alias" else int(m[1])), ty)
        return {"const int": "int"}.get(ty, ty[:-5] if ty.endswith("const") else ty)

    def returned(self, c):
        r = self.r
        if self.yes("p_rich_types"):
            ts = self.tags(("rec", "enum"), c)[:6]
            if ts:
                return r.choice(["{%d} &", "const {%d} &", "{%d} *", "const {%d} *"]) % r.choice(ts)
        return r.choice(["int", "int", "void", "double"])

    def default_for(self, ty):
        r = self.r
        if ty == "char":
            v = r.randint(0, 60)
            return ("c%d" % v, r.choice(["%d", "(%d)", "%d + 0", "'\\x%02x'" % v, "static_cast<char>(%d)", "char(%d)"]).replace("%d", str(v)))
        if ty in ("int", "long", "unsigned"):
            if self.f["rich_defaults"]:
                opts = self.constants(ty)
                if opts and r.random() < 0.6:
                    return r.choice(opts)
            if ty == "unsigned" and r.random() < 0.2:
                return (str(2 ** 32 - 1), "-1")
            v = str(r.randint(0, 60))
            return r.choice([(v, v), (v, "(%s)" % v), (str(int(v) + 1), "%s + 1" % v), (v, "static_cast<%s>(%s)" % (ty, v)),
                             (v, "%s{ %s }" % (ty, v)), (v, "%s.75" % v), ("65", "'A'"), ("1", "true"), ("0", "{}")])
        if ty == "double":
            return r.choice([("2.5", "2.5"), ("-1.0", "-1."), ("0.125", "1. / 8"), ("3.0", "3"), ("0.5", "0.5f"), ("0.0", "{}")])
        if ty == "bool":
            return r.choice([("true", "true"), ("false", "!true"), ("true", "1"), ("false", "0")])
        if ty == "const char *":
            return r.choice([("'txt'", '"txt"'), ("''", '""'), ("null", "nullptr"), ("null", "0"), ("null", "{}")])
        if ty.endswith("*"):
            return ("null", r.choice(["nullptr", "nullptr", "0", "{}"]))
        if re.fullmatch(r"const \{\d+\} &", ty) and self.f["rich_defaults"]:
            t = int(ty[7:ty.index("}")])
            if self.p[t]["k"] == "rec":
                return self.class_default(t)
        if re.fullmatch(r"\{\d+\}", ty):
            e = int(ty.strip("{}"))
            name = self.p.qual(e)
            if self.f["rich_defaults"] and r.random() < 0.4:
                v, dx = r.choice([("5", "static_cast<{%d}>(5)" % e), ("6", "{%d}(6)" % e), ("0", "{%d}{}" % e), ("0", "{}"), ("0", "{%d}()" % e)])
                return ("%s#%s" % (name, v), dx)
            evs = [x for x in self.p.d if x["k"] == "ev" and x["p"] == e]
            if evs:
                x = r.choice(evs)
                j = self.p.d.index(x) + 1
                return ("%s#%s" % (name, x["v"]), "{%d}" % j)
        return None

    def simple(self, t):
        """A class whose default value is known: (value of the first field, number of fields) or None."""
        if t not in self.closed or self.p[t]["k"] != "rec" or self.p[t]["bases"] or not self.accessible(t):
            return None
        own = [x for x in self.p.d if self.p_ctx(x) == t]
        if any(x["k"] in ("ctor", "dtor", "conv") or x["virt"] or x["pure"] for x in own):
            return None
        fields = [x for x in own if x["k"] == "field"]
        if not fields or not fields[0]["v"].isdigit() or fields[0]["vtype"] == "short" or any(x["op"] == "&" or x["op"] == "," for x in own):
            return None
        return fields[0]["v"], len(fields), all(x["acc"] == "pub" for x in fields)

    def p_ctx(self, x):
        return self.ctx(x["p"]) if x["p"] else 0

    def within_open_class(self, t):
        """Member initializers cannot be used before the enclosing class is complete."""
        q = self.p[t]["p"]
        while q:
            if self.p[q]["k"] == "rec" and q not in self.closed:
                return True
            q = self.p[q]["p"]
        return False

    def class_default(self, t):
        r = self.r
        info = self.simple(t)
        if info is None or self.within_open_class(t):
            return None
        value, count, aggregate = info
        name = self.p.qual(t)
        opts = [(value, "{%d}()" % t), (value, "{%d}{}" % t), (value, "{}")]
        if count == 1 and aggregate:
            opts += [("7", "{%d}{ 7 }" % t), ("8", "{ 8 }")]
        v, dx = r.choice(opts)
        return ("%s#%s" % (name, v), dx)

    def constants(self, ty):
        out = []
        for i in range(1, len(self.p) + 1):
            x = self.p[i]
            if x["k"] == "rec" and ty == "int" and self.simple(i):
                fields = [y for y in self.p.d if y["k"] == "field" and self.p_ctx(y) == i]
                if fields[0]["acc"] == "pub":
                    out.append((fields[0]["v"], "{%d}().%s" % (i, fields[0]["n"])))
        for i in range(1, len(self.p) + 1):
            x = self.p[i]
            if ty in ("int", "long") and x["k"] == "var" and x["v"].isdigit() and self.accessible(i):
                out.append((x["v"], "{%d}" % i))
            if ty in ("int", "long") and x["k"] == "ev" and self.accessible(self.p[i]["p"]):
                out += [(x["v"], "static_cast<int>({%d})" % i), (x["v"], "(int){%d}" % i), (x["v"], "int({%d})" % i)]
                if not self.p[self.p[i]["p"]]["scoped"]:
                    out.append((x["v"], "{%d}" % i))
        if out and self.r.random() < 0.3:
            v, dx = self.r.choice(out)
            out = [(v, "(%s ? %s : 0)" % ("true", dx)), (v, "+%s" % dx), (v, "[] { return %s; }()" % dx)][:2]
        return out

    def params(self, c, n=None, rich=False):
        r = self.r
        out = []
        names = list(self.f["pnames"])
        r.shuffle(names)
        defaulting = False
        for k in range(r.choice([0, 1, 1, 2, 3]) if n is None else n):
            ty = r.choice(self.types(c))
            if rich and self.yes("p_rich_types"):
                ty = r.choice(self.more_types(c))
            q = param(names[k] if r.random() < 0.9 else "", ty)
            q["tn"] = self.gcc_type(ty)
            if defaulting or self.yes("p_default_arg"):
                d = self.default_for(ty)
                if d is None and defaulting:
                    q = param(q["n"], "int")
                    d = self.default_for("int")
                if d is not None:
                    q["d"], q["dx"] = d
                    defaulting = True
            out.append(q)
        if self.yes("p_variadic"):
            kinds = r.choice([["args"], ["kwargs"], ["args", "kwargs"]] * 4 + [["kwargs", "args"]])
            for v in kinds:
                # a variadic parameter in the middle is possible as long as no default precedes it
                first_default = next((i for i, q in enumerate(out) if q["d"] != "-"), len(out))
                pos = r.randint(0, first_default) if v == "args" and r.random() < 0.5 else None
                q = param("args_" if v == "args" else "kw_",
                          "::pybind11::%s" % v if r.random() < 0.5 else "const ::pybind11::%s &" % v, v=v)
                if pos is None:
                    for y in out:
                        if y["v"] == "":
                            y["d"] = "-"
                    out.append(q)
                else:
                    out.insert(pos, q)
            if r.random() < 0.06:
                for y in out:
                    y["d"] = "-"
                out.append(param("late_", r.choice(["int", "double"])))
        return out

    def gcc_type(self, ty):
        import re
        t = re.sub(r"\{(\d+)\}", lambda m: self.p.qual(int(m.group(1))), ty)
        m = re.fullmatch(r"const (.*) &", t)
        if m:
            return "const " + m.group(1) + "&"
        m = re.fullmatch(r"(.*) \*", t)
        if m:
            return m.group(1) + "*"
        return {"unsigned": "unsigned int", "long": "long int"}.get(t, t)

    def policies(self, c, params, ret, self_slot):
        r = self.r
        out = []
        if not self.yes("p_policies"):
            return out
        names = [q["n"] for q in params if q["n"]]
        for what in ("noconvert", "required"):
            while names and r.random() < 0.4:
                out.append(ann(what, *r.sample(names, r.randint(1, min(2, len(names))))))
        keep = names + (["this"] if self_slot else []) + (["return"] if ret != "void" else [])
        if len(keep) >= 2 and r.random() < 0.5:
            out.append(ann("keep_alive", *r.sample(keep, 2)))
            if r.random() < 0.2:
                out.append(ann("keep_alive", *r.sample(keep, 2)))
        while r.random() < 0.3:
            out.append(ann("return_value_policy", r.choice(["copy", "move", "reference", "take_ownership",
                                                            "reference_internal", "automatic"])))
        return out

    def g_fun(self, c, depth):
        r = self.r
        cc = self.ctx(c)
        in_class = bool(cc) and self.p[cc]["k"] == "rec"
        if in_class and self.yes("p_virtual"):
            return self.g_virtual(c)
        key = self.scope_key(cc)
        funs = [n for (s, n), k in self.kinds.items() if s == key and k == "fun"]
        if funs and self.yes("p_overload"):
            n = r.choice(funs)
        else:
            n = self.fresh(c)
        params = self.params(c, rich=True)
        sig = tuple((self.canonical(q["ty"]), q["v"]) for q in params)
        cst = in_class and r.random() < 0.3
        st = in_class and self.yes("p_static")
        cst = cst and not st
        known = self.sigs.setdefault((key, n), {})
        if sig in known:
            # only const overloads of non-static functions may share a signature
            if st or known[sig] == {"static"} or cst in known[sig] or not in_class:
                return
        known.setdefault(sig, set()).add("static" if st else cst)
        self.kinds[(key, n)] = "fun"
        ret = self.returned(c)
        if in_class and n in ("foo", "bar") and not params:
            ret = "int"
        anns = self.policies(c, params, ret, in_class and not st)
        if in_class and not st and not any(q["v"] for q in params):
            anns += self.property_anns(cc, params, ret)
        self.p.add("fun", n, c, self.annotate(anns), acc=self.acc(c), params=params, st=st, cst=cst, ret=ret,
                   doc=self.doc(), post=" noexcept" if self.yes("p_noexcept") else "", **{"del": self.yes("p_deleted")})

    def property_anns(self, cc, params, ret):
        r = self.r
        if not self.yes("p_prop"):
            return []
        out = []
        lo = sum(1 for q in params if q["d"] == "-")
        for what, fits in (("getter_for", lo == 0 and ret != "void"), ("setter_for", params and lo <= 1)):
            if not fits or r.random() < 0.25:
                continue
            known = self.props.setdefault((cc, what), set())
            names = [n for n in ["value", "p", "q", "foo"] if n not in known or self.yes("p_propclash")]
            if what == "setter_for" and not self.yes("p_propclash"):
                names = [n for n in names if n in self.props.get((cc, "getter_for"), ())]
            if not names:
                continue
            mine = r.sample(names, r.randint(1, min(2, len(names))))
            known.update(mine)
            out.append(ann(what, *mine))
        return out

    def g_virtual(self, c):
        n = self.r.choice(["v0", "v1"])
        cc = self.ctx(c)
        if n in self.taken(c):
            return
        self.taken(c).add(n)
        self.p.add("fun", n, c, self.annotate(), acc="pub", cst=True, ret="int", virt=True, pure=self.yes("p_pure"))

    def g_ctor(self, c, depth):
        r = self.r
        cc = self.ctx(c)
        if not all(self.default_constructible(b["t"]) for b in self.p[cc]["bases"]):
            return
        acc = self.acc(c)
        dele = self.yes("p_deleted")
        known = self.sigs.setdefault((cc, "ctor"), {})
        x = r.random()
        if x < 0.2:
            cm = "copy" if r.random() < 0.6 else "move"
            if cm in known:
                return
            known[cm] = True
            n = "other" if r.random() < 0.7 else ""
            own = self.gcc_own(cc)
            q = param(n, "const {%d} &" % cc if cm == "copy" else "{%d} &&" % cc,
                      tn="const %s&" % own if cm == "copy" else own + "&&")
            self.p.add("ctor", "", c, self.annotate(), acc=acc, params=[q], cm=cm, doc=self.doc(), **{"del": dele})
            return
        params = self.params(c)
        variants = set()
        lo = sum(1 for q in params if q["d"] == "-")
        for k in range(lo, len(params) + 1):
            variants.add(tuple(self.loose(q["ty"]) for q in params[:k]))
        if variants & set(known):
            return
        for v in variants:
            known[v] = True
        anns = self.policies(c, params, "void", True)
        if len(params) == 1 and not params[0]["v"] and self.yes("p_implicit"):
            anns += self.flags("implicit_conversion", 0.8)
        self.p.add("ctor", "", c, self.annotate(anns), acc=acc, params=params, doc=self.doc(), **{"del": dele})

    def loose(self, ty):
        """Overloads that only differ in how a parameter is passed are ambiguous."""
        m = re.fullmatch(r"const (.*) &", ty)
        return m[1] if m else ty

    def gcc_own(self, c):
        return self.p.qual(c)

    def g_inh(self, c, depth):
        """Inherits the constructors of a base (checked when the class is complete)."""
        cc = self.ctx(c)
        bases = self.p[cc]["bases"]
        if not bases or self.virtuals or any(x["k"] == "inh" and self.ctx(x["p"]) == cc for x in self.p.d):
            return
        if all(self.default_constructible(b["t"]) for b in bases[:-1]):
            self.p.add("inh", "", c, acc=self.acc(c), tgt=bases[-1]["t"])

    def ctors(self, c, named=True):
        own = [x for x in self.p.d if x["k"] == "ctor" and self.ctx(x["p"]) == c]
        for x in self.p.d:
            if named and x["k"] == "inh" and self.ctx(x["p"]) == c:
                own = own + self.ctors(x["tgt"])
        return own

    def check_inh(self, c):
        """Leaves out inherited constructors if they could be confused with others."""
        variants = lambda x: {tuple(self.loose(q["ty"]) for q in x["params"][:n])
                              for n in range(sum(q["d"] == "-" for q in x["params"]), len(x["params"]) + 1)}
        for i, x in enumerate(self.p.d, 1):
            if x["k"] != "inh" or self.ctx(x["p"]) != c:
                continue
            own, more = self.ctors(c, False), [y for y in self.ctors(x["tgt"]) if not y["cm"]]
            ok = True
            if own:
                dflt = any(() in variants(y) for y in more) or self.default_constructible(x["tgt"])
                ok = not dflt or any(not y["params"] for y in own)
                for y in own:
                    for z in more:
                        same = [q["ty"] for q in y["params"]] == [q["ty"] for q in z["params"]]
                        plain = all(q["d"] == "-" for q in y["params"] + z["params"])
                        if variants(y) & variants(z) and not (same and plain):
                            ok = False
            else:
                for a, y in enumerate(more):
                    ok = ok and not any(variants(y) & variants(z) for z in more[:a])
            if not ok:
                n = "Other%d" % i
                x.update(k="other", n=n, tgt=0, text="typedef int %s;" % n)

    def g_dtor(self, c, depth):
        cc = self.ctx(c)
        if any(x["k"] == "dtor" and x["p"] == cc for x in self.p.d):
            return
        self.p.add("dtor", "", c, acc="pub", virt=self.yes("p_virtual"))

    def g_conv(self, c, depth):
        cc = self.ctx(c)
        known = self.sigs.setdefault((cc, "conv"), set())
        ret = self.r.choice(["int", "double", "bool"])
        if ret in known:
            return
        known.add(ret)
        self.p.add("conv", "", c, self.annotate(), acc=self.acc(c), ret=ret, cst=True, doc=self.doc())

    def flags(self, what, p):
        """A flag, given any number of times: the last one counts."""
        out = []
        while self.r.random() < p and len(out) < 3:
            out.append(self.r.choice([ann(what), ann(what), ann(what, True), ann(what, False)]))
            p = 0.3
        return out

    def g_field(self, c, depth):
        anns = self.flags("readonly", 0.15)
        self.p.add("field", self.fresh(c), c, self.annotate(anns), acc=self.acc(c), **self.stored(True))

    def g_var(self, c, depth):
        cc = self.ctx(c)
        in_class = bool(cc) and self.p[cc]["k"] == "rec"
        anns = self.flags("readonly", 0.15)
        self.p.add("var", self.fresh(c), c, self.annotate(anns), acc=self.acc(c), **self.stored(False))

    def g_alias(self, c, depth):
        r = self.r
        cands = self.tags(here=c)
        if not cands:
            return
        t = r.choice(cands)
        anns = []
        x = r.random()
        if x < self.f["p_here"]:
            if t in self.here and r.random() > self.f["p_mismatch"]:
                return
            self.here.add(t)
            anns.append(ann("expose_here"))
        elif x < self.f["p_here"] + self.f["p_enc"]:
            anns.append(ann("encourage"))
        via = 0
        others = [i for i in range(1, len(self.p) + 1) if self.p[i]["k"] == "alias" and self.p[i]["tgt"] == t
                  and self.accessible(i)]
        if others and self.yes("p_via"):
            via = r.choice([i for i in others if self.p[i]["cvq"]] * 4 + others)
        self.p.add("alias", self.fresh(c), c, self.annotate(anns), acc=self.acc(c), tgt=t, td=r.random() < 0.3,
                   cvq=r.random() < self.f["p_cvq"] or bool(via and self.p[via]["cvq"]), via=via)

    def g_using(self, c, depth):
        r = self.r
        cc = self.ctx(c)
        in_class = bool(cc) and self.p[cc]["k"] == "rec"
        cands = []
        for i in range(1, len(self.p) + 1):
            x = self.p[i]
            q = self.ctx(x["p"])
            if x["k"] not in ("fun", "field", "var") or x["fr"] or x["op"] or not x["n"]:
                continue
            if x["k"] == "var" and in_class and x["st"]:
                continue
            if in_class:
                # only what is accessible anyway (known finding of C21)
                if q not in {b["t"] for b in self.p[cc]["bases"] if b["acc"] == "pub"} or x["acc"] != "pub":
                    continue
                if x["virt"] or x["pure"]:
                    continue
            else:
                if q and self.p[q]["k"] != "ns":
                    continue
                if self.p.same_scope(q, cc):
                    continue
            same = [y for y in self.p.d if y["n"] == x["n"] and y["p"] and self.p.same_scope(self.ctx(y["p"]), q)]
            if not q:
                same = [y for y in self.p.d if y["n"] == x["n"] and not self.ctx(y["p"])]
            if len(same) != 1 or x["n"] in self.taken(c) or (in_class and x["n"] == self.p[cc]["n"]):
                continue
            cands.append(i)
        if not cands:
            return
        i = r.choice(cands)
        self.taken(c).add(self.p[i]["n"])
        self.taken(self.p[i]["p"])  # the original name cannot be reused anyway
        self.frozen = getattr(self, "frozen", set())
        key = self.scope_key(self.ctx(self.p[i]["p"]))
        self.kinds.pop((key, self.p[i]["n"]), None)  # no further overloads
        self.p.add("using", self.p[i]["n"], c, acc="pub" if not in_class else self.acc(c), tgt=i)

    def g_manual(self, c, depth):
        anns = [ann("manual")]
        pre = []
        if not self.p.w and not c and self.r.random() < 0.4:
            pre = [[ann("postamble")]]
        elif self.r.random() < 0.2:
            pre = [[self.r.choice([ann("hidden"), ann("visible")])]]
        r, hand = self.r, ""
        if r.random() < 0.3:
            cc = self.ctx(c)
            hand = r.choice(["static constexpr", "static inline const"] if cc and self.p[cc]["k"] == "rec"
                            else ["static constexpr", "inline const", "const", "constexpr"])
        self.p.add("manual", "", c, pre + [anns], acc=self.acc(c), note=r.random() < 0.4, hand=hand,
                   body=r.randrange(10) if r.random() < 0.6 else 0)

    def g_op(self, c, depth):
        """An operator as member, friend, or free function."""
        r = self.r
        cc = self.ctx(c)
        in_class = bool(cc) and self.p[cc]["k"] == "rec"
        if in_class and (not self.f["pure_ops"] or r.random() > self.f["p_friend"]):
            return self.member_op(c, cc)
        cands = [t for t in self.tags(("rec",)) if t in self.closed] if not in_class else [cc]
        if in_class and not self.accessible(cc):
            return
        if not cands:
            return
        t = r.choice(cands)
        if self.yes("p_stream"):
            return self.stream_op(c, t, in_class)
        others = [x for x in self.tags(("rec",)) if x != t]
        unary = r.random() < 0.2
        ref = lambda k: r.choice(["const {%d} &", "{%d} &", "const {%d} &"]
                                 + (["{%d}", "const {%d}"] if self.simple(k) else [])) % k
        known = self.sigs.setdefault(("op", self.scope_key(NS(self.p, c))), set())
        if unary:
            op = r.choice(["+", "-", "~", "!", "*", "&"])
            ops, tys = [t], [ref(t)]
        else:
            op = "<<" if self.yes("p_shift") else r.choice(OPS2 + OPSI + ["&&", "||", ","])
            x = r.random()
            if x < 0.4:
                ops, tys = [t, t], [ref(t), ref(t)]
            elif x < 0.6:
                ops, tys = [t, 0], [ref(t), "int"]
            elif x < 0.8 or not others:
                ops, tys = [0, t], ["int", ref(t)]
            else:
                o = r.choice(others)
                ops, tys = r.choice([([t, o], [ref(t), ref(o)]), ([o, t], [ref(o), ref(t)])])
        sig = (op, tuple(o for o in ops))
        if sig in known or not self.unambiguous(op, ops, "free"):
            return
        known.add(sig)
        names = ["a_", "b_"]
        params = [param(names[k], ty) for k, ty in enumerate(tys)]
        self.p.add("fun", "", c, self.annotate(), op=op, ot=ops, fr=in_class, params=params, ret=r.choice(["int", "bool"]),
                   acc="pub" if in_class else "none", doc=self.doc(), **{"del": self.yes("p_deleted")})

    def unambiguous(self, op, operands, owner):
        """Operands of related classes could be meant by several operators."""
        family = tuple(self.roots(t) for t in operands)
        for o, fam, own, _ in self.ops:
            if o == op and len(fam) == len(family) and all(a & b for a, b in zip(fam, family)) and own != owner:
                return False
            if o == op and own == owner == "free" and len(fam) == len(family) and all(a & b for a, b in zip(fam, family)):
                return False
        self.ops.append((op, family, owner, {t for t in operands if t > 0}))
        if any(x["bases"] and self.confusing(self.all_bases(i)) for i, x in enumerate(self.p.d, 1) if x["k"] == "rec"):
            self.ops.pop()
            return False
        return True

    def roots(self, t):
        return self.all_bases(t) | {t} if t > 0 else {t}

    def stream_op(self, c, t, in_class):
        known = self.sigs.setdefault("stream", set())
        if ("stream", t) in known:
            return
        known.add(("stream", t))
        anns = [ann("expose_as", self.r.choice(["__str__", "__repr__", "text"]))] if self.r.random() < 0.6 else []
        params = [param("os_", "::std::ostream &"), param("b_", "const {%d} &" % t)]
        self.p.add("fun", "", c, self.annotate(anns), op="<<", ot=[-1, t], fr=in_class, params=params,
                   ret="::std::ostream &", acc="pub" if in_class else "none", doc=self.doc())

    def member_op(self, c, cc):
        r = self.r
        known = self.sigs.setdefault(("op", cc), set())
        x = r.random()
        if x < 0.15:
            op, params, ot = r.choice(["+", "-", "~", "!", "*"]), [], [cc]
        elif x < 0.3:
            op = "()"
            params, ot = self.params(c), []
        elif x < 0.4:
            op = r.choice(["[]", "&&", "||", ","])
            params, ot = [param("o_", "int")], [cc, 0]
        else:
            op = r.choice(OPS2 + OPSI)
            if r.random() < 0.5:
                params, ot = [param("o_", "const {%d} &" % cc)], [cc, cc]
            else:
                params, ot = [param("o_", r.choice(["int", "double"]))], [cc, 0]
        sig = (op, tuple(q["ty"] for q in params))
        if sig in known or (ot and not self.unambiguous(op, ot, "member")):
            return
        known.add(sig)
        anns = self.policies(c, params, "int", True) if op == "()" else []
        self.p.add("fun", "", c, self.annotate(anns), op=op, ot=ot, params=params, ret=r.choice(["int", "bool"]),
                   acc=self.acc(c), cst=r.random() < 0.6, doc=self.doc(), **{"del": self.yes("p_deleted")})


def NS(p, c):
    while c and p[c]["k"] not in ("ns",):
        c = p[c]["p"]
    return c


def operator_programs():
    """Every operator in every role."""
    out = []

    def fun(p, c, op, ot, tys, **kw):
        p.add("fun", "", c, op=op, ot=ot, params=[param("%s_" % "ab"[m], ty) for m, ty in enumerate(tys)], ret="int",
              **({"acc": "pub"} if p[c]["k"] == "rec" else {}), **kw)

    def ref(t):
        return "const {%d} &" % t
    for op in OPS2 + OPSI + ["&&", "||", ",", "->*", "=", "[]"]:
        p = Prog()
        n = p.add("ns", "N", 0, [ann("visible")])
        a = p.add("rec", "A", n)
        if op != "=":
            fun(p, a, op, [a, a], [ref(a)], cst=True)
        fun(p, a, op, [a, 0], ["int"])
        b = p.add("rec", "B", n)
        if op in ("=", "[]"):
            fun(p, b, op, [b, a], [ref(a)], cst=True)
            out.append(p)
            continue
        fun(p, b, op, [b, b], [ref(b), ref(b)], fr=True)
        fun(p, b, op, [b, 0], ["{%d} &" % b, "int"], fr=True)
        fun(p, b, op, [0, b], ["double", ref(b)], fr=True)
        c, d, e = p.add("rec", "C", n), p.add("rec", "D", n), p.add("rec", "E", n, [ann("hidden")])
        for ot in ([c, c], [c, 0], [0, c], [c, d], [d, c], [e, c], [d, e]):
            fun(p, n, op, ot, [ref(t) if t else "int" for t in ot])
        out.append(p)
    for op in ["+", "-", "~", "!", "*", "&", "++", "--"]:
        p = Prog()
        n = p.add("ns", "N", 0, [ann("visible")])
        a = p.add("rec", "A", n)
        fun(p, a, op, [a], [], cst=True)
        if op in ("++", "--"):
            fun(p, a, op, [a, 0], ["int"])
        b = p.add("rec", "B", n)
        fun(p, b, op, [b], [ref(b)], fr=True)
        c = p.add("rec", "C", n)
        d = p.add("rec", "D", n)
        if op not in ("++", "--"):
            fun(p, d, op, [d], [])
        e = p.add("rec", "E", n, [ann("hidden")])
        fun(p, n, op, [c], ["{%d} &" % c])
        fun(p, n, op, [e], [ref(e)])
        if op in ("++", "--"):
            fun(p, n, op, [d, 0], ["{%d} &" % d, "int"])
        out.append(p)
    # operators that mean nothing to Python
    for std in ("c++17", "c++20"):
        p = Prog()
        p.std = std
        n = p.add("ns", "N", 0, [ann("visible")])
        p.add("other", "u", n, text='constexpr int operator""_u(unsigned long long x) { return int(x); }')
        for c, text in enumerate(["static void *operator new(decltype(sizeof(0)) n) { return ::operator new(n); }",
                                  "static void operator delete(void *p) { ::operator delete(p); }",
                                  "static void *operator new[](decltype(sizeof(0)) n) { return ::operator new(n); }",
                                  "static void operator delete[](void *p) { ::operator delete(p); }",
                                  "int *operator->() { return nullptr; }", "void operator,(int) {}",
                                  "auto operator<=>(const C6 &) const = default;"][:6 + (std == "c++20")]):
            a = p.add("rec", "C%d" % c, n)
            p.add("other", "o%d" % c, a, acc="pub", text=text)
            p.add("fun", "f", a, acc="pub", ret="int")
        out.append(p)
    return out


def random_program(seed, **over):
    g = Gen(random.Random(seed), **over)
    p = g.program()
    for x in p.d:
        if x["doc"] and x["doc2"] is None:
            x["doc2"] = comment(g.r, x["doc"])
    decorate(g)
    return p


def define_outside(p, r, c):
    """The last members of a class are only defined after it (in the same order)."""
    own = [x for x in p.d if x["p"] == c and x["k"] not in ("rec", "enum")]
    for x in reversed(own[r.randrange(len(own)):] if own else []):
        if x["tps"] or x["ref"]["t"]:
            return
        if x["k"] == "fun" and not (x["fr"] or x["pure"] or x["del"] or x["virt"]):
            x["again"] = r.choice(["first", "last"])
        elif x["k"] == "ctor" and not x["del"] or x["k"] == "var" and "constexpr" not in x["pre"]:
            x["again"] = "first"
        else:
            return


def decorate(g):
    """Things that make no difference: other attributes, other declarations, redeclarations."""
    p, r = g.p, g.r
    bases = {b["t"] for x in p.d for b in x["bases"]}
    redeclare = lambda: r.choice(["first", "last"])
    for i, x in enumerate(p.d, 1):
        k = x["k"]
        lex = p[x["lex"]] if x["lex"] else None
        while lex and lex["k"] == "extern":
            lex = p[lex["lex"]] if lex["lex"] else None
        in_class = lex is not None and lex["k"] == "rec"
        if k in ("ns", "rec", "enum", "ev", "fun", "ctor", "field", "var", "alias") and g.yes("p_attr"):
            x["attr"] = r.choice(["hidden", "visible", "expose_as(zz)", "genpybind", "", " \u25ca hidden", "hidden\u25ca", "module", "garbage("])
        plain = not x["tps"] and not x["ref"]["t"] and not x["anon"] and x["lex"] == x["p"]
        if k == "rec" and plain and g.yes("p_key"):
            own = [y for y in p.d if y["p"] == i]
            simple = not x["bases"] and i not in bases and not any(y["virt"] or y["pure"] or y["k"] in ("extern", "using") for y in own)
            x["key"] = "union" if simple and sum(y["k"] == "field" for y in own) <= 1 and not any(y["cst"] for y in own if y["k"] == "field") and r.random() < 0.3 else "class"
        if k == "rec" and plain and not in_class and g.yes("p_again"):
            define_outside(p, r, i)
        if k in ("rec", "enum", "fun", "var") and plain and g.yes("p_again"):
            if k == "rec" and not in_class:
                x["again"] = redeclare()
            elif k in ("fun", "var") and in_class:
                pass
            elif k == "enum" and (x["scoped"] or x["under"]):
                x["again"] = redeclare()
            elif k == "fun" and not (x["fr"] or x["pure"] or x["del"] or x["virt"]):
                x["again"] = redeclare()
            elif k == "var" and "constexpr" not in x["pre"]:
                x["again"] = redeclare()
        if k not in ("ev", "extern") and not x["tail"] and g.yes("p_junk"):
            junk = ["static_assert(true, \"\");", ";", "struct Fwd%d;" % i, "// hidden", "#define JUNK%d" % i]
            if in_class:
                junk += ["friend struct Fwd%d;" % i, "friend int friend%d(int);" % i]
                if not any(y["fr"] or y["op"] for y in p.d) and lex["key"] != "union":
                    junk.append("int : 3;")
            else:
                junk.append("asm(\"\");")
                spaces = [j for j in range(1, i) if p[j]["k"] == "ns" and not p.same_scope(j, g.ctx(x["p"]))]
                if spaces and not p.rel:
                    junk += ["using namespace {%d};" % r.choice(spaces)] * 2
            x["junk"] = [r.choice(junk)]


def comment(r, doc):
    """The text of a comment whose brief description is `doc`."""
    text = doc.replace("\\", "\\\\")
    how = r.random()
    if how < 0.5:
        return text
    if how < 0.65:
        return text + "\n\nMore details, \"quoted\"."
    if how < 0.75:
        return "\\brief " + text
    if how < 0.85:
        return "@brief " + text + "\n\nMore."
    return text.replace(" ", "\n", 1)


MISUSE_NAMES = ["expose_as", "hidden", "visible", "module", "only_expose_in", "arithmetic", "export_values", "getter_for",
                "setter_for", "dynamic_attr", "hide_base", "holder_type", "inline_base", "implicit_conversion", "keep_alive",
                "noconvert", "required", "return_value_policy", "manual", "postamble", "readonly", "expose_here", "encourage"]


def misused_program(seed, **over):
    """A random program with some further annotations, right or wrong, anywhere."""
    r = random.Random("misuse/%s" % seed)
    p = random_program(seed, **over)
    kinds = ("ns", "rec", "enum", "ev", "fun", "ctor", "conv", "field", "var", "alias", "manual", "dtor")
    for n, x in enumerate(p.d):
        if x["k"] == "manual" and r.random() < 0.3:  # not quite
            in_class = x["lex"] and p[x["lex"]]["k"] == "rec"
            x.update(k="var", n="vm%d" % n, hand="static constexpr %s {n} =" % ("auto" if in_class else r.choice(["auto", "const auto"])),
                     text=r.choice(["[](auto parent) { (void)parent; }", "[](auto &&parent) { (void)parent; }", "[]() { }", "[] { }",
                                    "[](auto &parent, int) { (void)parent; }", "[](auto &, auto &) { }", "3", "([](auto &) { })",
                                    "[](int) { }", "0.5", "nullptr"]))
    cands = [x for x in p.d if x["k"] in kinds]
    for x in r.sample(cands, min(len(cands), r.choice([1, 1, 2, 3, 5]))):
        for _ in range(r.choice([1, 1, 2])):
            names = [q["n"] for q in x["params"] if q["n"]]
            pool = [True, False, DEFAULT, 0, 17, "x", "foo", "this", "return", "not valid", "1x", "a.b", "A::B", "_", "self",
                    *names, *names]
            args = [r.choice(pool) for _ in range(r.choice([0, 0, 0, 1, 1, 1, 2, 2, 3]))]
            new = ann(r.choice(MISUSE_NAMES), *args)
            where = r.randint(0, len(x["anns"]))
            if x["k"] == "manual":
                where = 0
            if x["anns"] and r.random() < 0.4 and x["k"] != "manual":
                g = r.choice(x["anns"])
                g.insert(r.randint(0, len(g)), new)
            else:
                x["anns"].insert(where, [new])
    return p


# --------------------------------------------------------------------------
# texts of annotations

DOCS = ["First docs.", "More text here", "Say \"hi\" to it.", "Uses: (a) [b] % 1", "Gr\u00f6\u00dfe: 3 \u00e91 \u20ac0f",
        "\u00e9a first", "A \\ and a \\\\n", "What? Yes?? Why?!", "a 'c' ?", "1 2 3", "%d {} %s"]
BARE = ["x", "y", "foo", "_a1", "trueish", "True", "defaults", "this"]
NEARLY = list("()\",,, \t-+.;:=<>[]{}\\'/*#@!0123456789aZ_") + ["true", "false", "default", "visible", "Visible", "hidden_", "é", "\f", "4294967295",
                                                           "4294967296", "18446744073709551616", "/**/", "\n", "\r"]


def spaced(rng):
    return rng.choice(["", "", "", " ", "  ", "\t", " \f"])


def text_literal(rng, kind):
    v = rng.choice({"name": ["y", "zz", "_0", "true", "default", "A1"], "param": ["x", "y"], "flag": ["true", "false"],
                    "default": ["default"], "policy": ["copy", "move", "reference"],
                    "odd": ['a\\"b', "\\\\", "a,b", "(x)", "a b", "x)", 'y\\\\\\"', "\\)", "", "1", "-", "é", "(,", "true"]}[kind])
    if kind in ("flag", "default"):
        return v
    if kind == "odd":
        return '"' + v + '"'
    if v in ("true", "default") or rng.random() < 0.4:
        return '"' + v + '"'
    return v


def valid_text(rng, where):
    """A text that is acceptable on a function f(int x, int y), a class or an enum."""
    menu = [("visible", []), ("visible", ["flag"]), ("visible", ["default"]), ("hidden", []), ("expose_as", ["name"]),
            ("expose_as", ["default"])]
    if where == "fun":
        menu += [("noconvert", ["param"]), ("noconvert", ["param", "param"]), ("required", ["param"]),
                 ("return_value_policy", ["policy"]), ("keep_alive", ["param", "param"])] * 2
    elif where == "rec":
        menu += [("dynamic_attr", []), ("dynamic_attr", ["flag"]), ("hide_base", ["name"]), ("inline_base", ["name"]),
                 ("hide_base", ["odd"]), ("inline_base", ["odd", "name"]), ("inline_base", ["odd", "odd"])]
    else:
        menu += [("arithmetic", []), ("arithmetic", ["flag"]), ("export_values", ["flag"]), ("export_values", [])]
    parts = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        name, args = rng.choice(menu)
        s = spaced(rng) + name + spaced(rng)
        if args or rng.random() < 0.3:
            s += "(" + ",".join(spaced(rng) + text_literal(rng, a) + spaced(rng) for a in args)
            if args and rng.random() < 0.2:
                s += "," + spaced(rng)
            s += ")" + spaced(rng)
        parts.append(s)
    text = ",".join(parts)
    if parts and rng.random() < 0.2:
        text += "," + spaced(rng)
    return text


def mangled(rng, text):
    for _ in range(rng.choice([1, 1, 1, 2])):
        at = rng.randrange(len(text) + 1)
        op = rng.randrange(4)
        if op == 0:
            text = text[:at] + rng.choice(NEARLY) + text[at:]
        elif op == 1:
            text = text[:at] + text[at + 1:]
        elif op == 2:
            text = text[:at] + rng.choice(NEARLY) + text[at + 1:]
        else:
            to = min(len(text), at + rng.randrange(1, 8))
            text = text[:at] + text[at:to] + text[at:]
    return text


def text_program(seed, count, p_mangle):
    rng = random.Random(seed)
    p = Prog("m", True)
    p.add("ns", "n", anns=[ann("visible")] if rng.random() < 0.5 else [])
    for i in range(count):
        where = rng.choice(["fun", "fun", "fun", "rec", "enum"])
        raw = [valid_text(rng, where) for _ in range(rng.choice([1, 1, 1, 2]))]
        if rng.random() < p_mangle:
            raw[0] = mangled(rng, raw[0])
        if where == "fun":
            p.add("fun", "f%d" % i, 1, raw=raw, ret="int", params=[param("x"), param("y")])
        elif where == "rec":
            p.add("rec", "R%d" % i, 1, raw=raw)
        else:
            e = p.add("enum", "E%d" % i, 1, raw=raw)
            p.add("ev", "V%d" % i, e, v="3")
    return p
