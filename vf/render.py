"""Renders abstract programs as C++ headers (one declaration per line)."""
import re

BUILTIN = {"void", "bool", "char", "int", "long", "short", "double", "float"}


def ann_text(group):
    parts = []
    for a in group:
        if not a["a"]:
            parts.append(a["n"])
        else:
            args = []
            for x in a["a"]:
                if x["t"] == "s" and not re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", x["v"]):
                    args.append('"' + x["v"].replace("\\", "\\\\").replace('"', '\\"') + '"')
                elif x["t"] == "s" and x["v"] in ("true", "false", "default"):
                    args.append('"' + x["v"] + '"')
                else:
                    args.append(x["v"])
            parts.append(a["n"] + "(" + ", ".join(args) + ")")
    return ", ".join(parts)


def c_string(text):
    out = ""
    for c in text:
        if c in '"\\':
            out += "\\" + c
        elif c in "\n\r":
            out += {"\n": "\\n", "\r": "\\r"}[c]
        else:
            out += c
    return '"' + out + '"'


# what manual bindings may look like
BODIES = ["{ %(s)s; }",
          "{ int one = 1, two = 2; if (one < two) { %(s)s; return; } %(s)s; }",
          "{ if (sizeof(int) == 1) return; %(s)s; }",
          "{ %(s)s; { return; } }",
          "{ for (int n = 0; n < 1; ++n) { %(s)s; } return; }",
          "{ auto inner = [&](int n) { if (n == 1) { %(s)s; } return n; }; (void)inner(1); }",
          "{ if constexpr (sizeof(char) == 1) { %(s)s; } else { return; } }",
          "{ /* } */ const char *text = \"a\\n\\\"}b\"; if (*text == 'a') %(s)s; }",
          "{ struct Local { int n = 3, m = 4; } local; switch (local.n) { case 3: %(s)s; break; default: return; } }",
          "{ using T = int; static_assert(sizeof(T) > 0, \"x, y\"); do { %(s)s; } while (false); }"]


class Renderer:
    def __init__(self, prog, number, wrap=None, raw=False):
        self.p = prog
        self.base = number * 1000
        self.wrap = wrap
        self.lines = []
        self.where = {}
        self.last = 0
        self.at = 0
        self.later = []

    # -- names ------------------------------------------------------------
    def qual(self, i):
        pre = "::" + self.wrap + "::" if self.wrap else "::"
        return pre + self.p.qual(i)

    def base_names(self, c):
        out = set()
        for b in self.p[c]["bases"]:
            out |= {self.p[b["t"]]["n"]} | self.base_names(b["t"])
        return out

    def short(self, i):
        """A name for declaration i that can be used in scope self.at."""
        if not self.p.rel:
            return self.qual(i)
        around, c = [], self.at
        while c:
            around.append(c)
            c = self.p.ctx(c)
        parts, j = [], i
        while True:
            parts.insert(0, self.p[j]["n"])
            q = self.p.ctx(j)
            if not q or any(self.p.same_scope(q, a) for a in around):
                break
            j = q
        first = parts[0]
        same = {x["canon"] if x["k"] == "ns" else ("d", k) for k, x in enumerate(self.p.d) if x["n"] == first}
        params = {q["n"] for x in self.p.d for q in x["params"]}
        if len(same) != 1 or first in params or first == self.wrap:
            return self.qual(i)
        # the name of a base class is also a (possibly inaccessible) member
        if any(first in self.base_names(a) for a in around):
            return self.qual(i)
        return "::".join(parts)

    def args(self, xs):
        return ", ".join(self.ty(a.get("x", a["s"])) for a in xs if a.get("x", "-"))

    def spec(self, r):
        """A class or the specialization of a template."""
        if not r.get("a"):
            return self.short(r["t"])
        if r.get("o"):
            outer = self.p.ctx(r["t"])
            return "%s<%s>::%s<%s>" % (self.qual(outer), self.args(r["o"]), self.p[r["t"]]["n"], self.args(r["a"]))
        return "%s<%s>" % (self.short(r["t"]), self.args(r["a"]))

    def head(self, x, again=False):
        """What precedes the declaration of a template or specialization."""
        if x["tps"]:
            ps = []
            for k, n in enumerate(x["tps"]):
                d = x["dflt"][k] if k < len(x["dflt"]) and x["dflt"][k] else ""
                ps.append((x["tk"][k] if k < len(x["tk"]) else "class") + " " + n + (" = " + d if d and not again else ""))
            return "template <%s> " % ", ".join(ps)
        return "template <> " if x["ref"]["t"] and x["k"] != "alias" else ""

    def ty(self, text):
        return re.sub(r"\{(\d+)\}", lambda m: self.short(int(m.group(1))), text)

    # -- output -----------------------------------------------------------
    def emit(self, text, i=0):
        for line in text.split("\n"):
            self.lines.append(line)
            if i:
                self.where[len(self.lines)] = i

    def anns(self, x, skip_manual=False):
        out = ""
        if x["attr"]:
            out += '__attribute__((annotate(%s))) ' % c_string(x["attr"])
        for text in x["raw"]:
            out += '__attribute__((annotate("◊" %s))) ' % c_string(text)
        for g in x["anns"][:-1] if skip_manual else x["anns"]:  # the last one is part of GENPYBIND_MANUAL
            text = ann_text(g)
            if self.wrap and "holder_type" in text:
                text = text.replace("_ptr<::", "_ptr<::%s::" % self.wrap)
            out += "GENPYBIND(" + text + ") "
        return out

    def children(self, i):
        return [j for j in range(1, len(self.p) + 1) if self.p[j]["lex"] == i]

    def block(self, i):
        for j in self.children(i):
            self.decl(j)

    def sig(self, x, own=None, defaults=True):
        if x["cm"] == "copy":
            return "const %s &%s" % (own, x["params"][0]["n"])
        if x["cm"] == "move":
            return "%s &&%s" % (own, x["params"][0]["n"])
        out = []
        for q in x["params"]:
            t = self.ty(q["ty"])
            s = t + " " + q["n"] if "{n}" not in t else t.replace("{n}", q["n"])
            if q["d"] != "-" and defaults:
                s += " = " + self.ty(q["dx"])
            out.append(s)
        return ", ".join(out)

    def doc(self, x):
        if x["doc2"] is not None:
            for line in x["doc2"].split("\n"):
                self.emit("/// " + line if line else "///")
        elif x["doc"]:
            self.emit("/// " + x["doc"].replace("\\", "\\\\"))

    def decl(self, i):
        if i != self.last + 1:
            raise ValueError("declarations are not in source order: %d after %d" % (i, self.last))
        self.last = i
        x = self.p[i]
        self.at = x["lex"]
        k = x["k"]
        parent = self.p[x["lex"]] if x["lex"] else None
        acc = ""
        if parent is not None and parent["k"] == "rec":
            acc = {"pub": "public: ", "pro": "protected: ", "pri": "private: ", "none": "public: "}[x["acc"]]
        for line in x["junk"]:
            self.emit(acc + self.ty(line) if line.endswith(";") else line)
        if not x["tail"]:
            getattr(self, "k_" + k)(i, x, acc)

    def k_ns(self, i, x, acc):
        self.emit("%snamespace %s %s{" % ("inline " if self.p[x["canon"]]["inl"] else "", x["n"], self.anns(x)), i)
        self.block(i)
        self.emit("}")

    def k_extern(self, i, x, acc):
        self.emit('extern "C++" {', i)
        self.block(i)
        self.emit("}")

    def k_rec(self, i, x, acc):
        name = x["n"]
        if x["lex"] != x["p"]:
            # defined outside of its class
            name = "::".join(self.p.qual(i).split("::")[len(self.p.qual(x["lex"]).split("::")) if x["lex"] else 0:])
        if x["fwd"]:
            self.emit(acc + self.head(x) + "%s %s;" % (x["key"], x["n"]))
        anns = self.anns(x)
        if x["again"]:
            self.emit("%s%s %s%s;" % (acc, x["key"], anns if x["again"] == "first" else "", x["n"]), i)
            anns = anns if x["again"] == "last" else ""
        self.doc(x)
        bases = ", ".join({"pub": "public ", "pro": "protected ", "pri": "private "}[b["acc"]]
                          + ("virtual " if b.get("virt") else "") + self.spec(b)
                          for b in x["bases"])
        if x["ref"]["t"]:
            name += "<%s>" % self.args(x["ref"]["a"])
        if x["anon"]:
            name = ""
            acc += "typedef "
        self.emit("%s%s%s %s%s%s {" % (acc, self.head(x, x["fwd"]), x["key"], anns, name, " : " + bases if bases else ""), i)
        for j in range(1, len(self.p) + 1):
            y = self.p[j]
            if y["p"] == i and y["lex"] != i and y["k"] == "rec":
                a = {"pub": "public: ", "pro": "protected: ", "pri": "private: "}[y["acc"]]
                self.emit("%s%s %s;" % (a, y["key"], y["n"]))
        self.block(i)
        self.close(i, x)
        if not self.within_class(i):
            self.flush()

    def close(self, i, x):
        if not x["anon"]:
            self.emit("};")
            return
        j = self.p.alias_of(i)
        self.emit("} %s %s;" % (x["n"], self.anns(self.p[j])), j)

    def within_class(self, i):
        q = self.p[i]["lex"]
        while q and self.p[q]["k"] == "extern":
            q = self.p[q]["lex"]
        return bool(q) and self.p[q]["k"] == "rec"

    def flush(self):
        """Definitions outside of the class."""
        later, self.later = self.later, []
        for text, i in later:
            self.emit(text(), i)

    def outside(self, i):
        """Name of a member as seen from the scope around all classes; sets self.at."""
        q = i
        while q and self.p[q]["k"] != "ns":
            q = self.p[q]["lex"]
        self.at = q
        full = self.p.qual(i).split("::")
        return "::".join(full[len(self.p.qual(q).split("::")) if q else 0:])

    def k_enum(self, i, x, acc):
        anns, under = self.anns(x), " : " + x["under"] if x["under"] else ""
        kw = "enum " + ("class " if x["scoped"] else "")
        if x["again"]:
            self.emit("%s%s%s%s%s;" % (acc, kw, anns if x["again"] == "first" else "", x["n"], under), i)
            anns = anns if x["again"] == "last" else ""
        self.doc(x)
        if x["anon"]:
            acc += "typedef "
        self.emit("%s%s%s%s%s {" % (acc, kw, anns, "" if x["anon"] else x["n"], under), i)
        self.block(i)
        self.close(i, x)

    def k_ev(self, i, x, acc):
        self.doc(x)
        self.emit("%s %s= %s," % (x["n"], self.anns(x), x["v"]), i)

    def k_fun(self, i, x, acc):
        self.doc(x)
        lex = self.p[x["lex"]] if x["lex"] else None
        in_class = lex is not None and lex["k"] == "rec"
        name = x["n"] if not x["op"] else "operator" + x["op"]
        pre = ""
        if x["fr"]:
            pre = "friend "
        elif in_class and x["st"]:
            pre = "static "
        elif in_class and (x["virt"] or x["pure"]):
            pre = "virtual "
        elif not in_class:
            pre = "inline "
        ret = x["ret"] or "int"
        if x["ref"]["t"]:
            name += "<%s>" % self.args(x["ref"]["a"])
        post = (" const" if x["cst"] and in_class and not x["st"] and not x["fr"] else "") + x["post"]
        anns = self.anns(x)
        if x["again"] and not in_class:
            first = x["again"] == "first"
            self.emit("%s%s%s %s(%s)%s;" % (anns if first else "", pre, self.ty(ret), name, self.sig(x, defaults=first), post), i)
            anns = "" if first else anns
        head = "%s%s%s%s%s %s(%s)%s" % (acc, self.head(x), anns, pre, self.ty(ret), name,
                                        self.sig(x, defaults=in_class or x["again"] != "first"), post)
        if x["pure"]:
            self.emit(head + " = 0;", i)
            return
        if x["del"]:
            self.emit(head + " = delete;", i)
            return
        args = [str(self.base + i)]
        if x["op"] and x["op"] != "()":
            if in_class and not x["fr"]:
                args.append("*this")
            if not (x["ot"] and x["ot"][0] == -1):
                args += [q["n"] for q in x["params"]]
        body = "::verif::hit(%s);" % ", ".join(args)
        if ret != "void":
            if ret.rstrip().endswith("&"):
                if x["ot"] and x["ot"][0] == -1:
                    body += " return %s;" % x["params"][0]["n"]
                else:
                    body += " return ::verif::make<::std::remove_cv_t<::std::remove_reference_t<%s>>>();" % self.ty(ret)
            else:
                body += " return ::verif::make<%s>();" % self.ty(ret)
        if x["again"] and in_class:
            self.emit(head + ";", i)
            anns = self.anns(x) if x["again"] == "last" else ""
            self.later.append((lambda: self.member_definition(i, x, anns, post, body), i))
            return
        self.emit("%s { %s }" % (head, body), i)

    def member_definition(self, i, x, anns, post, body):
        own = self.outside(x["p"]) + "::"
        name = own + (x["n"] if not x["op"] else "operator" + x["op"])
        if x["k"] == "ctor":
            return "%sinline %s%s(%s) %s" % (anns, own, self.p[x["p"]]["n"], self.sig(x, self.qual(x["p"]), False), body)
        return "%sinline %s %s(%s)%s { %s }" % (anns, self.ty(x["ret"] or "int"), name, self.sig(x, None, False), post, body)

    def k_ctor(self, i, x, acc):
        self.doc(x)
        own = self.p[x["p"]]["n"]
        head = "%s%s%s(%s)" % (acc, self.anns(x), own, self.sig(x, own))
        if x["del"]:
            self.emit(head + " = delete;", i)
        elif x["again"]:
            self.emit(head + ";", i)
            self.later.append((lambda: self.member_definition(i, x, "", "", "{ ::verif::hit(%d); }" % (self.base + i)), i))
        else:
            self.emit(head + " { ::verif::hit(%d); }" % (self.base + i), i)

    def k_dtor(self, i, x, acc):
        self.emit("%s~%s() {}" % (acc + self.anns(x) + ("virtual " if x["virt"] else ""), self.p[x["p"]]["n"]), i)

    def k_conv(self, i, x, acc):
        self.doc(x)
        self.emit("%s%soperator %s()%s { ::verif::hit(%d); return ::verif::make<%s>(); }" % (
            acc, self.anns(x), self.ty(x["ret"]), " const" if x["cst"] else "", self.base + i,
            self.ty(x["ret"])), i)

    def k_field(self, i, x, acc):
        self.doc(x)
        if x["uses"]:
            self.emit("%s%s%s %s;" % (acc, self.anns(x), self.spec(x["uses"][0]), x["n"]), i)
            return
        self.emit("%s%s%s%s %s%s;" % (acc, self.anns(x), x["pre"], self.vtype(x), x["n"],
                                      "" if x["bare"] else " = " + (x["init"] or x["v"])), i)

    def vtype(self, x):
        return ("const " if x["cst"] and not x["vfull"] else "") + self.ty(x["vtype"])

    def k_inst(self, i, x, acc):
        """An explicit instantiation; `extern` ones are only seen by the tool."""
        t = self.p[x["ref"]["t"]]
        if x["mode"] == "extern":
            self.emit("#ifdef __GENPYBIND__\nextern\n#endif")
        if t["k"] == "rec":
            self.emit("template struct %s%s;" % (self.anns(x), self.spec(x["ref"]).lstrip(":")), i)
        else:
            sub = dict(zip(t["tps"], x["ref"]["a"]))
            text = lambda s: self.ty(re.sub(r"\b[A-Z]\b", lambda m: sub[m[0]]["x"] if m[0] in sub else m[0], s))
            self.emit("template %s%s %s(%s);" % (self.anns(x), text(t["ret"] or "int"), self.spec(x["ref"]).lstrip(":"),
                                                 ", ".join(text(q["ty"]) for q in t["params"])), i)

    def k_var(self, i, x, acc):
        self.doc(x)
        if x["hand"]:
            self.emit("%s%s%s %s;" % (acc, self.anns(x), x["hand"].replace("{n}", x["n"]), x["text"]), i)
            return
        lex = self.p[x["lex"]] if x["lex"] else None
        in_class = lex is not None and lex["k"] == "rec"
        anns, init = self.anns(x), x["init"] or x["v"]
        if x["again"] and in_class:
            self.emit("%s%sstatic %s %s;" % (acc, anns, self.vtype(x), x["n"]), i)
            self.later.append((lambda: "inline %s %s = %s;" % (self.vtype(x), self.outside(i), init), i))
            return
        if x["again"]:
            first = x["again"] == "first"
            self.emit("%sextern %s %s;" % (anns if first else "", self.vtype(x), x["n"]), i)
            self.emit("%sinline %s %s = %s;" % ("" if first else anns, self.vtype(x), x["n"], init), i)
            return
        self.emit("%s%s%s%sinline %s %s = %s;" % (acc, self.anns(x), x["pre"], "static " if in_class else "",
                                                  self.vtype(x), x["n"], x["init"] or x["v"]), i)

    def k_alias(self, i, x, acc):
        if x["ref"]["t"]:
            target = self.spec(x["ref"])
        elif x["ref"]["a"]:
            target = x["ref"]["a"][0]["s"]
        else:
            target = self.short(x["via"] or x["tgt"]) if x["tgt"] else "int"
        if x["cvq"] and not (x["via"] and self.p[x["via"]]["cvq"]):
            target = "const " + target
        if x["td"]:
            self.emit("%stypedef %s %s %s;" % (acc, target, x["n"], self.anns(x)), i)
        else:
            self.emit("%susing %s %s= %s;" % (acc, x["n"], self.anns(x), target), i)

    def k_other(self, i, x, acc):
        """Something that lookup finds but that is never exposed."""
        self.emit(acc + x["text"], i)

    def k_using(self, i, x, acc):
        self.emit("%susing %s;" % (acc, self.qual(x["via"] or x["tgt"])), i)

    def k_inh(self, i, x, acc):
        self.emit("%susing %s::%s;" % (acc, self.qual(x["tgt"]), self.p[x["tgt"]]["n"]), i)

    def k_manual(self, i, x, acc):
        arg = "parent" if not x["hand"] or x["body"] % 2 else "p"
        if x["note"]:
            stmt = "::verif::note(%d)" % (self.base + i)
        else:
            stmt = '%s.attr("verif_manual") = %d' % (arg, self.base + i)
        body = BODIES[x["body"]] % {"s": stmt}
        if x["hand"]:
            self.emit("%s%s%s auto vm_%d = [](auto &%s) %s;" % (acc, self.anns(x), x["hand"], self.base + i, arg, body), i)
        else:
            self.emit("%s%sGENPYBIND_MANUAL(%s)" % (acc, self.anns(x, skip_manual=True), body), i)

    def render(self):
        if self.wrap:
            self.emit("namespace %s GENPYBIND(module) {" % self.wrap)
        self.block(0)
        if self.wrap:
            self.emit("}")
        return self.lines, self.where


PRELUDE = ["#pragma once", "#include <genpybind/genpybind.h>", "#include <verif.h>"]
OPTIONAL = [("std::ostream", "#include <ostream>"), ("std::string", "#include <string>"), ("std::vector", "#include <vector>"),
            ("_ptr<", "#include <memory>"), ("std::initializer_list", "#include <initializer_list>"), ("_MAX", "#include <climits>"),
            ("std::numeric_limits", "#include <limits>"), ("std::make_", "#include <memory>"), ("std::array", "#include <array>"),
            ("NULL", "#include <cstddef>"), ("<=>", "#include <compare>"), ("std::make_tuple", "#include <tuple>"), ("std::max", "#include <algorithm>"), ("std::function", "#include <functional>"), ("pybind11::", "#include <pybind11/pybind11.h>"), ("std::", "#include <type_traits>")]


def header(items):
    """items: (program, number, wrapper or None); returns text and {line: (position, decl)}."""
    body, where = [], {}
    for pos, (prog, number, wrap) in enumerate(items):
        lines, w = Renderer(prog, number, wrap).render()
        for line, i in w.items():
            where[len(body) + line] = (pos, i)
        body += lines
    text = "\n".join(body)
    pre = list(PRELUDE)
    for token, inc in OPTIONAL:
        if token in text:
            pre.append(inc)
    shift = len(pre)
    return "\n".join(pre) + "\n" + text + "\n", {line + shift: at for line, at in where.items()}
