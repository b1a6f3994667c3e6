"""Abstract programs: the inputs of the specification (spec/Genpybind.tla) and of the renderer."""
import copy
import json

DEFAULT = object()  # the literal `default`

FIELDS = {
    "k": "", "n": "", "p": 0, "lex": 0, "acc": "none", "anns": [], "raw": [], "skip": False, "badann": False,
    "doc": "", "canon": 0, "bases": [], "params": [], "st": False, "cst": False, "del": False,
    "pure": False, "op": "", "ot": [], "fr": False, "tgt": 0, "scoped": False, "v": "", "cvq": False, "inl": False,
    "ret": "", "cm": "", "virt": False,
    # templates (spec/Templates.tla)
    "tps": [], "ref": {"t": 0, "a": [], "o": []}, "uses": [], "src": 0, "args": [],
}
# Used by the renderer only, never seen by the specification.
EXTRA = {"td": False, "via": 0, "note": False, "fwd": False, "vtype": "int", "redecl": False,
         "under": "", "doc2": None, "post": "", "cls": "",
         "tk": [], "mode": "", "dflt": [],
         "vfull": False, "init": "", "pre": "",
         # how it is written
         "attr": "", "key": "struct", "junk": [], "again": "", "bare": False, "anon": False, "tail": False, "text": "", "body": 0, "hand": ""}


def lit(a):
    if a is DEFAULT:
        return {"t": "d", "v": "default"}
    if a is True or a is False:
        return {"t": "b", "v": "true" if a else "false"}
    if isinstance(a, int):
        return {"t": "n", "v": str(a)}
    return {"t": "s", "v": a}


def ann(name, *args):
    return {"n": name, "a": [lit(a) for a in args]}


def param(name="", ty="int", tn=None, d="-", v="", dx=None):
    """A parameter; d is the recorded representation of its default, dx the expression."""
    return {"n": name, "ty": ty, "tn": ty if tn is None else tn, "d": d, "v": v,
            "dx": d if dx is None else dx}


def targ(s, t=0, x=None):
    """A template argument: text, class it refers to, and how to render it."""
    return {"s": s, "t": t, "x": s if x is None else x}


def tref(t, a, o=()):
    return {"t": t, "a": list(a), "o": list(o)}


class Prog:
    def __init__(self, mod="m", w=True):
        self.mod = mod
        self.w = w
        self.d = []
        self.tag = ""
        self.std = "c++17"
        self.rel = False  # refer to other declarations by short names where possible

    def add(self, k, n="", p=0, anns=(), **kw):
        x = copy.deepcopy(FIELDS)
        x.update({key: copy.deepcopy(val) for key, val in EXTRA.items()})
        groups = []
        for g in anns:
            groups.append([g] if isinstance(g, dict) else list(g))
        x.update(k=k, n=n, p=p, anns=groups)
        x["lex"] = kw.pop("lex", p)
        for key, val in kw.items():
            if key not in x:
                raise KeyError(key)
            x[key] = val
        self.d.append(x)
        i = len(self.d)
        if k == "ns":
            x["canon"] = i
            for j, y in enumerate(self.d[:-1], 1):
                if y["k"] == "ns" and y["n"] == n and self.same_scope(self.ctx(j), self.ctx(i)):
                    x["canon"] = y["canon"]
                    break
        if x["acc"] == "none" and p and self.d[p - 1]["k"] == "rec":
            x["acc"] = "pub"
        return i

    def __getitem__(self, i):
        return self.d[i - 1]

    def __len__(self):
        return len(self.d)

    def ctx(self, i):
        q = self[i]["p"]
        while q and self[q]["k"] == "extern":
            q = self[q]["p"]
        return q

    def same_scope(self, a, b):
        if a == b:
            return True
        if not a or not b:
            return False
        return self[a]["k"] == "ns" and self[b]["k"] == "ns" and self[a]["canon"] == self[b]["canon"]

    def alias_of(self, i):
        """The alias that gives an unnamed class or enum its name."""
        return next(j for j in range(i + 1, len(self.d) + 1) if self[j]["tail"] and self[j]["tgt"] == i)

    def qual(self, i):
        """Fully qualified C++ name without leading ::"""
        parts = []
        while i:
            if self[i]["k"] == "ns" or self[i]["k"] != "extern":
                parts.append(self[i]["n"])
            i = self.ctx(i)
        return "::".join(reversed(parts))

    def spec_json(self):
        out = []
        for x in self.d:
            y = {key: x[key] for key in FIELDS}
            y["params"] = [{key: q[key] for key in ("n", "ty", "tn", "d", "v")} for q in x["params"]]
            args = lambda xs: [{"s": z["s"], "t": z["t"]} for z in xs]
            ref = lambda z: {"t": z["t"], "a": args(z.get("a", [])), "o": args(z.get("o", []))}
            y["ref"] = ref(x["ref"])
            y["uses"] = [ref(z) for z in x["uses"]]
            y["bases"] = [dict(ref(b), acc=b["acc"]) for b in x["bases"]]
            out.append(y)
        return {"mod": self.mod, "w": self.w, "d": out}

    def to_json(self):
        return {"mod": self.mod, "w": self.w, "d": self.d, "tag": self.tag, "std": self.std, "rel": self.rel}

    @staticmethod
    def from_json(obj):
        p = Prog(obj["mod"], obj["w"])
        p.tag = obj.get("tag", "")
        p.std = obj.get("std", "c++17")
        p.rel = obj.get("rel", False)
        for x in obj["d"]:
            y = copy.deepcopy(FIELDS)
            y.update(copy.deepcopy(EXTRA))
            y.update(x)
            for q in y["params"]:
                q.setdefault("dx", q["d"])
            p.d.append(y)
        return p

    def key(self):
        return json.dumps(self.to_json(), sort_keys=True)
