------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* Small universes of programs, one or more per property, each enumerated  *)
(* completely.  TLC checks the lemmas of Run on every behaviour of every   *)
(* member (MC.cfg) and writes the members to a file, from which they are   *)
(* rendered as C++, given to the real tool, and what is observed validated *)
(* against Run (Trace).                                                    *)
(***************************************************************************)
EXTENDS Run, Json, IOUtils

D0 == [k |-> "", n |-> "", p |-> 0, lex |-> 0, acc |-> "none", anns |-> <<>>, raw |-> <<>>, skip |-> FALSE, badann |-> FALSE,
  doc |-> "", canon |-> 0, bases |-> <<>>, params |-> <<>>, st |-> FALSE, cst |-> FALSE, del |-> FALSE,
  pure |-> FALSE, op |-> "", ot |-> <<>>, fr |-> FALSE, tgt |-> 0, scoped |-> FALSE, v |-> "", cvq |-> FALSE, inl |-> FALSE,
  ret |-> "", cm |-> "", virt |-> FALSE,
  tps |-> <<>>, ref |-> [t |-> 0, a |-> <<>>, o |-> <<>>], uses |-> <<>>, src |-> 0, args |-> <<>>]

Lit(v) == [t |-> "s", v |-> v]
Bool(b) == [t |-> "b", v |-> IF b THEN "true" ELSE "false"]
Num(n) == [t |-> "n", v |-> ToString(n)]
Dflt == [t |-> "d", v |-> "default"]
Ann(name, args) == [n |-> name, a |-> args]
A(name) == Ann(name, <<>>)
G(a) == <<<<a>>>>
Visible == G(A("visible"))

Decl(kd, n, p, anns) == [D0 EXCEPT !.k = kd, !.n = n, !.p = p, !.lex = p, !.anns = anns]
Ns(n, p, anns) == Decl("ns", n, p, anns)
Rec(n, p, anns) == Decl("rec", n, p, anns)
Enum(n, p, anns) == Decl("enum", n, p, anns)
Ev(n, p, v) == [Decl("ev", n, p, <<>>) EXCEPT !.v = v]
Fun(n, p, anns) == [Decl("fun", n, p, anns) EXCEPT !.ret = "int"]
Field(n, p, anns) == [Decl("field", n, p, anns) EXCEPT !.v = "7"]
Var(n, p, anns) == [Decl("var", n, p, anns) EXCEPT !.v = "9"]
Alias(n, p, t, anns) == [Decl("alias", n, p, anns) EXCEPT !.tgt = t]
Manual(p, anns) == Decl("manual", "", p, anns \o G(A("manual")))
Param(n, ty, d) == [n |-> n, ty |-> ty, tn |-> ty, d |-> d, v |-> ""]

\* Program from declarations: fills in what follows from the rest.
Program(w, ds) ==
  LET raw == [mod |-> "m", w |-> w, d |-> ds] IN
  [raw EXCEPT !.d = [i \in DOMAIN ds |->
     [ds[i] EXCEPT
        !.canon = IF ds[i].k = "ns"
                  THEN Min({j \in 1..i : ds[j].k = "ns" /\ Qual(raw, j) = Qual(raw, i)}) ELSE 0,
        !.acc = IF @ = "none" /\ ds[i].p # 0 /\ ds[ds[i].p].k = "rec" THEN "pub" ELSE @]]]
Pr(ds) == Program(TRUE, ds)

-----------------------------------------------------------------------------
(* Visibility: chains of scopes with every annotation and access *)

VisAnns == {<<>>, <<<<>>>>, Visible, G(A("hidden")), G(Ann("visible", <<Dflt>>))}
Accs(d, p) == IF p # 0 /\ d[p].k = "rec" THEN {"pub", "pri"} ELSE {"none"}
Leaf(kind, p, inrec) ==
  CASE kind = "fun" -> <<Fun("f", p, <<>>)>>
    [] kind = "var" -> <<IF inrec THEN Field("x", p, <<>>) ELSE Var("x", p, <<>>)>>
    [] kind = "enum" -> <<Enum("E", p, <<>>), Ev("V", p + 1, "3")>>
    [] OTHER -> <<Rec("R", p, <<>>), Fun("g", p + 1, <<>>)>>
Extend(ds, kind) ==
  LET p == Len(ds)
      new == Leaf(kind, p, p # 0 /\ ds[p].k = "rec")
  IN {ds \o [new EXCEPT ![1].anns = an, ![1].acc = ac] : an \in VisAnns, ac \in Accs(ds, p)}
Scopes(ds, kinds, name) ==
  LET p == Len(ds) IN
  {Append(ds, [Decl(kd, name, p, an) EXCEPT !.acc = ac]) :
     kd \in IF p # 0 /\ ds[p].k = "rec" THEN kinds \ {"ns"} ELSE kinds, an \in VisAnns, ac \in Accs(ds, p)}
Chain1(dummy) == Scopes(<<>>, {"ns"}, "a") \cup {Append(<<>>, Rec("a", 0, an)) : an \in VisAnns}
Chain2(dummy) == UNION {Scopes(ds, {"ns", "rec"}, "b") : ds \in Chain1(0)}
Leaves == {"fun", "var", "enum", "rec"}
UVisibility(dummy) == UNION {UNION {{Pr(x) : x \in Extend(ds, kd)} : kd \in Leaves} : ds \in Chain2(0)}
Chain3(dummy) == UNION {Scopes(ds, {"ns", "rec"}, "c") : ds \in {x \in Chain2(0) : \A i \in DOMAIN x : x[i].anns # <<<<>>>>}}
UVisibilityDeep(dummy) == UNION {UNION {{Pr(x) : x \in Extend(ds, kd)} : kd \in {"fun", "rec"}} :
                     ds \in {x \in Chain3(0) : x[3].anns # <<<<>>>>}}

-----------------------------------------------------------------------------
(* Names and scopes: modules, transparent namespaces, renamed declarations *)

NsAnns == {<<>>, Visible, G(A("module")), G(Ann("module", <<Lit("mm")>>)),
           <<<<A("module"), A("visible")>>>>, G(Ann("expose_as", <<Lit("zz")>>)),
           <<<<Ann("module", <<Lit("mm")>>), Ann("expose_as", <<Lit("zz")>>)>>>>,
           <<<<Ann("expose_as", <<Lit("zz")>>), Ann("module", <<Lit("mm")>>)>>>>}
NameAnns == {G(A("visible")), G(Ann("expose_as", <<Lit("nn")>>)),
             <<<<Ann("expose_as", <<Lit("nn")>>), Ann("expose_as", <<Dflt>>)>>>>,
             <<<<Ann("expose_as", <<Lit("nn")>>)>>, <<Ann("expose_as", <<Lit("oo")>>)>>>>}
UNames(dummy) ==
  {Pr(<<Ns("a", 0, x), Ns("b", 1, y), Rec("R", 2, z), Fun("f", 3, u), Enum("E", 2, z), Ev("V", 5, "3"), Var("x", 2, u),
        Fun("g", 1, z)>>) :
     x \in NsAnns, y \in NsAnns, z \in NameAnns, u \in NameAnns}

-----------------------------------------------------------------------------
(* Aliases *)

AliasAnns == {<<>>, Visible, G(A("expose_here")), G(A("encourage")), <<<<A("expose_here"), A("hidden")>>>>,
              <<<<A("expose_here"), Ann("expose_as", <<Lit("nn")>>)>>>>}
\* struct A { struct B { } } struct C; aliases anywhere
AliasBase(x, y) == <<Ns("n", 0, G(A("module"))), Rec("A", 1, x), Rec("B", 2, y)>>
UAliases(dummy) ==
  UNION {
  {Pr(AliasBase(x, y) \o <<Alias("X", p, t, an), Rec("C", 0, <<>>), Alias("Y", q, u, bn)>>) :
     x \in {<<>>, Visible}, y \in {<<>>, G(A("hidden"))},
     p \in {2, 3}, t \in {2, 3}, q \in {0, 5}, u \in {2, 3}} : an \in AliasAnns, bn \in AliasAnns}

-----------------------------------------------------------------------------
(* only_expose_in *)

Oei(names) == <<<<Ann("only_expose_in", [i \in DOMAIN names |-> Lit(names[i])]), A("visible")>>>>
OeiAnns == {<<>>, Visible, Oei(<<"m">>), Oei(<<"q">>), Oei(<<"q", "m">>), Oei(<<"q", "r">>)}
UOnlyExposeIn(dummy) ==
  {Pr(<<Ns("a", 0, x), Fun("f", 1, <<>>), Ns("b", 1, y), Rec("R", 3, <<>>), Fun("g", 4, <<>>), Ns("a", 0, z), Fun("h", 6, <<>>),
        Ns("c", 0, Visible), Alias("Y", 8, 4, an)>>) :
     x \in OeiAnns, y \in OeiAnns, z \in {<<>>, Visible} \cup {x2 \in OeiAnns : x2 # <<>>},
     an \in {<<>>, Visible, G(A("expose_here"))}}

-----------------------------------------------------------------------------
(* Base classes *)

Base(t, acc) == [t |-> t, acc |-> acc, a |-> <<>>, o |-> <<>>]
BaseChoices(t) == {<<>>, <<Base(t, "pub")>>, <<Base(t, "pri")>>}
BAnns == {Visible, <<<<A("visible"), A("inline_base")>>>>, <<<<A("visible"), A("hide_base")>>>>}
CAnns == BAnns \cup {<<<<A("visible"), Ann(what, <<Lit(b)>>)>>>> : what \in {"inline_base", "hide_base"}, b \in {"A", "B", "Nope"}}
              \cup {<<<<A("visible"), A("inline_base"), Ann("hide_base", <<Lit(b)>>)>>>> : b \in {"A", "B"}}
UBases(dummy) ==
  {Pr(<<Rec("A", 0, va), Fun("f", 1, <<>>), Field("x", 1, <<>>),
        [Rec("B", 0, xb) EXCEPT !.bases = bb], Fun(nb, 4, vb),
        [Rec("C", 0, xc) EXCEPT !.bases = ca \o cb], Fun(nc, 6, <<>>)>>) :
     va \in {Visible, G(A("hidden"))}, vb \in {<<>>, G(A("hidden"))},
     bb \in BaseChoices(1), xb \in BAnns, nb \in {"f", "g"},
     ca \in {<<>>}, cb \in BaseChoices(4), xc \in CAnns, nc \in {"f", "h"}}
\* several bases
UBases2(dummy) ==
  {Pr(<<Rec("A", 0, va), Fun("f", 1, <<>>),
        Rec("B", 0, Visible), Fun(nb, 3, <<>>),
        [Rec("C", 0, xc) EXCEPT !.bases = ca \o cb], Fun("h", 5, <<>>),
        [Rec("D", 0, xd) EXCEPT !.bases = <<Base(5, da)>>]>>) :
     va \in {Visible, G(A("hidden"))}, nb \in {"f", "g"}, xc \in CAnns,
     ca \in BaseChoices(1), cb \in BaseChoices(3), xd \in BAnns, da \in {"pub", "pro"}}

-----------------------------------------------------------------------------
(* Reopened namespaces *)

PartAnns == {<<>>, <<<<>>>>, Visible, G(A("module")), <<<<A("module"), A("visible")>>>>}
PartContent == {"none", "plain", "annotated"}
Part(an, ct, n) ==
  CASE ct = "none" -> <<Ns("a", 0, an)>>
    [] ct = "plain" -> <<Ns("a", 0, an), Fun(n, 0, <<>>)>>
    [] OTHER -> <<Ns("a", 0, an), Fun(n, 0, Visible)>>
Place(ds) == [i \in DOMAIN ds |->
  IF ds[i].k = "ns" THEN ds[i]
  ELSE LET q == Max({j \in 1..i : ds[j].k = "ns"}) IN [ds[i] EXCEPT !.p = q, !.lex = q]]
UReopened(dummy) ==
  {Pr(Place(Part(a1, c1, "f") \o Part(a2, c2, "g") \o Part(a3, c3, "h"))) :
     a1 \in PartAnns, a2 \in PartAnns, a3 \in PartAnns,
     c1 \in PartContent, c2 \in PartContent, c3 \in PartContent}

-----------------------------------------------------------------------------
(* Constructors, and what C++ provides by itself *)

Ctor(p, params, cm, del, acc) ==
  [Decl("ctor", "", p, <<>>) EXCEPT !.params = params, !.cm = cm, !.del = del, !.acc = acc]
CtorChoice == {"no", "yes", "del", "pri"}
CtorOf(p, kind, ch) ==
  IF ch = "no" THEN <<>>
  ELSE LET params == CASE kind = "default" -> <<>>
                       [] kind = "copy" -> <<[n |-> "o", ty |-> "", tn |-> "", d |-> "-", v |-> ""]>>
                       [] kind = "move" -> <<[n |-> "o", ty |-> "", tn |-> "", d |-> "-", v |-> ""]>>
                       [] OTHER -> <<Param("x", "int", "-"), Param("y", "int", "4")>>
       IN <<Ctor(p, params, IF kind \in {"copy", "move"} THEN kind ELSE "", ch = "del",
                 IF ch = "pri" THEN "pri" ELSE "pub")>>
UConstructors(dummy) ==
  {Pr(<<Ns("n", 0, Visible), Rec("A", 1, <<>>)>> \o CtorOf(2, "default", a) \o CtorOf(2, "copy", b)
       \o CtorOf(2, "move", m) \o CtorOf(2, "int", i)
       \o <<[Fun("v", 2, <<>>) EXCEPT !.virt = v # "no", !.pure = v = "pure", !.cst = TRUE],
            [Rec("B", 1, <<>>) EXCEPT !.bases = <<Base(2, "pub")>>]>>) :
     a \in CtorChoice, b \in CtorChoice, m \in {"no", "yes"}, i \in {"no", "yes", "pri"}, v \in {"no", "virtual", "pure"}}

\* Signatures: overloads, static and const, defaults, documentation
Method(n, params, st, cst, del) ==
  [Fun(n, 2, <<>>) EXCEPT !.params = params, !.st = st, !.cst = cst, !.del = del]
Lists == {<<>>, <<Param("x", "int", "-")>>, <<Param("x", "int", "5")>>, <<Param("", "double", "-"), Param("x", "int", "-")>>,
          <<Param("y", "int", "-"), Param("x", "double", "2.5")>>}
Types(ps) == [i \in DOMAIN ps |-> ps[i].ty]
USignatures(dummy) ==
  {Pr(<<Ns("n", 0, Visible), Rec("A", 1, <<>>), Method("f", l1, s1 = "static", s1 = "const", FALSE),
        Method("f", l2, s2 = "static", s2 = "const", d), [Fun("f", 1, <<>>) EXCEPT !.params = l1, !.doc = "Doc."]>>) :
     l1 \in Lists, l2 \in Lists, s1 \in {"", "static", "const"}, s2 \in {"", "static", "const"}, d \in BOOLEAN}
LegalSignatures(dummy) == {x \in USignatures(0) :
   Types(x.d[3].params) = Types(x.d[4].params) =>
      ~x.d[3].st /\ ~x.d[4].st /\ x.d[3].cst # x.d[4].cst}

-----------------------------------------------------------------------------
(* Call policies *)

PolicyParams == {<<Param("x", "int", "-"), Param("y", "double", "-")>>, <<Param("y", "int", "-")>>,
  <<[Param("args_", "::pybind11::args", "-") EXCEPT !.v = "args"], Param("x", "int", "-"), Param("y", "double", "3")>>,
  <<Param("x", "int", "-"), [Param("args_", "::pybind11::args", "-") EXCEPT !.v = "args"], Param("y", "double", "-"),
    [Param("kw_", "::pybind11::kwargs", "-") EXCEPT !.v = "kwargs"]>>,
  <<[Param("kw_", "::pybind11::kwargs", "-") EXCEPT !.v = "kwargs"], Param("y", "int", "-")>>}
Marks == {<<>>} \cup {<<Ann(w, <<Lit(n)>>)>> : w \in {"noconvert", "required"}, n \in {"x", "y", "args_"}}
          \cup {<<Ann("noconvert", <<Lit("x"), Lit("y")>>)>>, <<Ann("noconvert", <<Lit("y")>>), Ann("required", <<Lit("x")>>)>>}
Keeps == {<<>>, <<Ann("keep_alive", <<Lit("return"), Lit("y")>>)>>, <<Ann("keep_alive", <<Lit("this"), Lit("y")>>)>>,
          <<Ann("keep_alive", <<Lit("y"), Lit("this")>>)>>,
          <<Ann("keep_alive", <<Lit("x"), Lit("y")>>), Ann("keep_alive", <<Lit("y"), Lit("return")>>)>>,
          <<Ann("return_value_policy", <<Lit("reference")>>)>>}
PolicyTarget(where, ps, an) ==
  CASE where = "free" -> [Fun("f", 1, an) EXCEPT !.params = ps]
    [] where = "method" -> [Fun("f", 2, an) EXCEPT !.params = ps]
    [] where = "static" -> [Fun("f", 2, an) EXCEPT !.params = ps, !.st = TRUE]
    [] where = "call" -> [Fun("", 2, an) EXCEPT !.params = ps, !.op = "()"]
    [] OTHER -> [Decl("ctor", "", 2, an) EXCEPT !.params = ps]
UPolicies(dummy) ==
  {Pr(<<Ns("n", 0, Visible), Rec("A", 1, <<>>), PolicyTarget(w, ps, <<<<A("visible")>> \o mk \o ke>>),
        [PolicyTarget(w, <<>>, <<>>) EXCEPT !.n = IF @ = "" THEN "" ELSE "g"]>>) :
     w \in {"free", "method", "static", "call", "ctor"}, ps \in PolicyParams, mk \in Marks, ke \in Keeps}

-----------------------------------------------------------------------------
(* Properties *)

PropLists == {<<>>, <<"p">>, <<"q">>, <<"p", "q">>}
PropAnns(g, s) ==
  LET one(w, l) == IF l = <<>> THEN <<>> ELSE <<Ann(w, [i \in DOMAIN l |-> Lit(l[i])])>>
      all == one("getter_for", g) \o one("setter_for", s)
  IN IF all = <<>> THEN <<>> ELSE <<all>>
PropMethod(n, p, an) == [Fun(n, p, an) EXCEPT !.params = <<Param("x", "int", "1")>>]
UProperties(dummy) ==
  {Pr(<<Ns("n", 0, Visible), Rec("A", 1, <<>>), PropMethod("f", 2, PropAnns(g1, s1)), PropMethod("g", 2, PropAnns(g2, s2)),
        [Rec("B", 1, b) EXCEPT !.bases = <<Base(2, "pub")>>], PropMethod("h", 5, PropAnns(g3, <<>>))>>) :
     g1 \in PropLists, s1 \in PropLists, g2 \in PropLists, s2 \in PropLists, g3 \in {<<>>, <<"p">>},
     b \in {<<>>, G(A("inline_base"))}}

-----------------------------------------------------------------------------
(* Operators *)

AllOps == {"+","-","*","/","%","^","&","|","~","!","<",">","+=","-=","*=","/=","%=","^=","&=","|=","<<",">>",
           "<<=",">>=","==","!=","<=",">=","&&","||",",","[]","()"}
UnaryOps == {"+", "-", "~", "!", "*", "&"}
OpVis == {<<>>, G(A("hidden")), Visible}
T(i) == "const {" \o ToString(i) \o "} &"
Operand(t) == IF t = 0 THEN "int" ELSE T(t)
OpParams(ts) == [i \in DOMAIN ts |-> Param(IF i = 1 THEN "a_" ELSE "b_", Operand(ts[i]), "-")]
Op(p, op, ts, member, fr, an) ==
  [Fun("", p, an) EXCEPT !.op = op, !.fr = fr, !.cst = TRUE, !.ot = IF op = "()" THEN <<>> ELSE ts,
     !.params = IF member THEN OpParams(Tail(ts)) ELSE OpParams(ts)]
\* A: class 2, B: class 3 (declared before)
OpHead == <<Ns("n", 0, Visible), Rec("B", 1, <<>>), Field("x", 2, <<>>), Rec("A", 1, <<>>), Field("y", 4, <<>>)>>
BinaryOperands == {<<4, 4>>, <<4, 0>>, <<0, 4>>, <<4, 2>>, <<2, 4>>}
UOperators(dummy) ==
  {Pr(Append(OpHead, Op(4, op, ts, TRUE, FALSE, an))) :
     op \in AllOps \ {"~", "!"}, ts \in {<<4, 4>>, <<4, 0>>, <<4, 2>>}, an \in OpVis}
  \cup {Pr(Append(OpHead, Op(4, op, <<4>>, TRUE, FALSE, an))) : op \in UnaryOps, an \in OpVis}
  \cup {Pr(Append(OpHead, Op(p, op, ts, FALSE, p = 4, an))) :
     p \in {1, 4}, op \in AllOps \ {"~", "!", "[]", "()"}, ts \in BinaryOperands, an \in OpVis}
  \cup {Pr(Append(OpHead, Op(p, op, <<4>>, FALSE, p = 4, an))) : p \in {1, 4}, op \in UnaryOps, an \in OpVis}

-----------------------------------------------------------------------------
(* Enums *)

EnumAnns == {<<>>, Visible, G(A("arithmetic")), G(Ann("arithmetic", <<Bool(FALSE)>>)), G(A("export_values")),
             G(Ann("export_values", <<Bool(FALSE)>>)), G(Ann("expose_as", <<Lit("nn")>>)),
             <<<<A("arithmetic"), A("export_values")>>>>, <<<<A("visible"), Ann("export_values", <<Bool(TRUE)>>)>>>>}
EvAnns == {<<>>, G(A("hidden")), G(Ann("expose_as", <<Lit("nn")>>)), Visible}
UEnums(dummy) ==
  {Pr(<<Ns("n", 0, vn), Rec("A", 1, <<>>), [Enum("E", p, an) EXCEPT !.scoped = sc, !.doc = dc],
        [Ev("V", 3, "3") EXCEPT !.anns = e1, !.doc = dc], [Ev("W", 3, "-4") EXCEPT !.anns = e2],
        Alias("X", 0, 3, al)>>) :
     vn \in {Visible, <<>>}, p \in {1, 2}, an \in EnumAnns, sc \in BOOLEAN, dc \in {""}, e1 \in EvAnns, e2 \in EvAnns,
     al \in {<<>>, G(A("expose_here"))}}

-----------------------------------------------------------------------------
(* Variables *)

VarAnns == {<<>>, Visible, G(A("hidden")), G(A("readonly")), G(Ann("readonly", <<Bool(FALSE)>>)),
            G(Ann("expose_as", <<Lit("nn")>>)), <<<<A("readonly"), A("hidden")>>>>}
UVariables(dummy) ==
  {Pr(<<Ns("n", 0, vn), [Var("v", 1, a0) EXCEPT !.cst = c0], Rec("A", 1, <<>>),
        [Field("x", 3, a1) EXCEPT !.cst = c1, !.acc = ac], [Var("y", 3, a2) EXCEPT !.cst = c0, !.acc = ac],
        [Rec("B", 1, <<>>) EXCEPT !.bases = <<Base(3, "pub")>>, !.anns = b]>>) :
     vn \in {Visible}, a0 \in VarAnns, c0 \in BOOLEAN, c1 \in BOOLEAN, ac \in {"pub", "pri", "pro"},
     a1 \in VarAnns, a2 \in VarAnns, b \in {<<>>, G(A("inline_base"))}}

-----------------------------------------------------------------------------
(* Manual bindings *)

ManAnns == {<<>>, G(A("hidden")), Visible}
UManual(dummy) ==
  {Pr(<<Ns("n", 0, vn), Manual(1, m1), Fun("f", 1, <<>>), Rec("A", 1, va), [Manual(4, m2) EXCEPT !.acc = ac], Fun("g", 4, <<>>),
        Manual(1, m2), Ns("n", 0, vn), Manual(8, m1)>>) :
     vn \in {<<>>, Visible, G(A("module")), <<<<A("module"), A("visible")>>>>, G(A("hidden"))},
     m1 \in ManAnns, va \in {<<>>, Visible, G(A("hidden"))}, m2 \in ManAnns, ac \in {"pub", "pri"}}
UPostamble(dummy) ==
  {Program(FALSE, <<Manual(0, a1), Ns("n", 0, vn), Fun("f", 2, <<>>), Manual(2, a2), Manual(0, a3), Rec("A", 0, Visible),
                    Fun("g", 6, <<>>)>>) :
     vn \in {<<>>, Visible, G(A("module"))}, a1 \in {<<>>, G(A("postamble"))}, a2 \in {<<>>, G(A("hidden"))},
     a3 \in {<<>>, G(A("postamble")), <<<<A("postamble"), A("hidden")>>>>}}

-----------------------------------------------------------------------------
(* Order: classes whose bases and scopes are registered at other places *)

UOrder(dummy) ==
  {Pr(<<Rec("A", 0, Visible), Rec("B", 1, Visible), [Rec("C", 0, Visible) EXCEPT !.bases = cb],
        Rec("D", 3, Visible), [Rec("E", 4, Visible) EXCEPT !.bases = eb],
        Alias("X", p, t, G(A("expose_here"))), Alias("Y", q, u, G(A("expose_here")))>>) :
     cb \in {<<>>, <<Base(1, "pub")>>, <<Base(2, "pub")>>}, eb \in {<<>>, <<Base(1, "pub")>>, <<Base(2, "pub")>>},
     p \in {0, 3, 4, 5}, t \in {1, 2}, q \in {0, 3, 4, 5}, u \in {1, 2, 3, 4}}
\* a base that is reached through a hidden (perhaps inlined) one and registered elsewhere
UOrderInline(dummy) ==
  {Pr(<<Rec("A", 0, Visible), [Rec("H", 0, xh) EXCEPT !.bases = <<Base(1, ah)>>],
        [Rec("D", 0, xd) EXCEPT !.bases = <<Base(2, ad)>>], Rec("F", 3, Visible),
        Ns("z", 0, zn), [Rec("E", 5, Visible) EXCEPT !.bases = <<Base(3, "pub")>>], Alias("X", p, t, G(A("expose_here")))>>) :
     xh \in {<<>>, Visible, G(A("inline_base")), <<<<A("hidden"), A("inline_base")>>>>}, ah \in {"pub", "pri"}, ad \in {"pub", "pri"},
     xd \in {Visible, <<<<A("visible"), A("inline_base")>>>>, <<<<A("visible"), Ann("inline_base", <<Lit("H")>>), Ann("hide_base", <<Lit("A")>>)>>>>},
     zn \in {<<>>, G(A("module"))}, p \in {0, 5}, t \in {1, 2, 3}}
  \cup
  {Pr(<<Rec("A", 0, Visible), [Rec("H", 0, xh) EXCEPT !.bases = <<Base(1, "pub")>>],
        [Rec("D", 0, xd) EXCEPT !.bases = <<Base(2, "pub")>>], Alias("X", 3, 1, G(A("expose_here")))>>) :
     xh \in {<<>>, Visible, G(A("inline_base"))}, xd \in BAnns}
LegalOrder(dummy) == {x \in UOrder(0) : x.d[6].tgt # x.d[7].tgt /\ x.d[7].p <= x.d[6].p}

-----------------------------------------------------------------------------
(* Misuse: every annotation with every kind of arguments on every kind of declaration *)

ArgLists == {<<>>, <<Bool(TRUE)>>, <<Bool(FALSE)>>, <<Dflt>>, <<Num(1)>>, <<Lit("x")>>, <<Lit("not valid")>>, <<Lit("1x")>>,
             <<Lit("x"), Lit("y")>>, <<Lit("x"), Num(2)>>, <<Lit("x"), Lit("nope")>>, <<Lit("this"), Lit("x")>>,
             <<Lit("return"), Lit("x")>>, <<Bool(TRUE), Bool(TRUE)>>, <<Lit("x"), Lit("y"), Lit("x")>>, <<Dflt, Dflt>>,
             <<Lit("true")>>, <<Lit("x"), Lit("return")>>, <<Lit("x"), Dflt>>}
XY == <<Param("x", "int", "-"), Param("y", "int", "2")>>
Targets(an) ==   \* the same annotation on every kind of declaration, one error or none for each
  <<Ns("n", 0, an), Rec("A", 1, an), Field("x0", 2, an), Var("y0", 2, an),
    [Fun("m0", 2, an) EXCEPT !.params = XY], [Fun("m1", 2, an) EXCEPT !.params = <<>>, !.cst = TRUE],
    [Fun("m2", 2, an) EXCEPT !.params = XY, !.st = TRUE], [Fun("m3", 2, an) EXCEPT !.params = XY, !.ret = "void"],
    [Fun("", 2, an) EXCEPT !.op = "()", !.params = <<Param("x", "int", "1")>>],
    [Fun("", 2, an) EXCEPT !.op = "+", !.ot = <<2, 0>>, !.params = <<Param("x", "int", "-")>>],
    [Decl("conv", "", 2, an) EXCEPT !.ret = "int", !.cst = TRUE],
    [Decl("ctor", "", 2, an) EXCEPT !.params = <<Param("x", "int", "-")>>],
    [Decl("ctor", "", 2, an) EXCEPT !.params = <<Param("x", "int", "-"), Param("y", "int", "-")>>],
    Enum("E", 2, an), [Ev("V", 14, "1") EXCEPT !.anns = an],
    Rec("B", 1, <<>>), Alias("X", 1, 16, an), [Fun("f", 1, an) EXCEPT !.params = XY], Var("v", 1, an), Manual(1, an),
    [Rec("C", 1, an) EXCEPT !.bases = <<Base(16, "pub")>>]>>
UMisuse(dummy) == {Pr(Targets(G(Ann(name, args)))) : name \in AnnotationNames, args \in ArgLists}
\* two annotations, of which at most one is wrong
Pairs == {<<A("visible"), A("hidden")>>, <<A("expose_here"), A("encourage")>>, <<A("encourage"), A("expose_here")>>,
          <<Ann("expose_as", <<Lit("x y")>>), A("visible")>>, <<A("hidden"), Ann("expose_as", <<Num(2)>>)>>,
          <<A("readonly"), A("hidden")>>, <<A("manual"), A("visible")>>, <<A("postamble"), A("visible")>>}
UMisusePairs(dummy) == {Pr(Targets(<<pr>>)) : pr \in Pairs} \cup {Pr(Targets(<<<<pr[1]>>, <<pr[2]>>>>)) : pr \in Pairs}

-----------------------------------------------------------------------------
(* Class options *)

ClassAnns == {<<>>, Visible, G(A("dynamic_attr")), G(Ann("dynamic_attr", <<Bool(FALSE)>>)), G(Ann("dynamic_attr", <<Bool(TRUE)>>)),
              <<<<A("dynamic_attr")>>, <<Ann("dynamic_attr", <<Bool(FALSE)>>)>>>>}
Holders(n) == {<<>>, <<Ann("holder_type", <<Lit("std::shared_ptr<::" \o n \o ">")>>)>>}
WithHolder(an, h) == IF h = <<>> THEN an ELSE an \o <<h>>
UClassOptions(dummy) ==
  {Program(FALSE, <<Ns("n", 0, Visible), [Rec("A", 1, WithHolder(x, ha)) EXCEPT !.doc = dc],
                    [Rec("B", 1, WithHolder(y, hb)) EXCEPT !.bases = <<Base(2, "pub")>>], Rec("C", 3, z)>>) :
     x \in ClassAnns, y \in ClassAnns, z \in {<<>>, G(A("dynamic_attr"))}, ha \in Holders("n::A"), hb \in Holders("n::B"),
     dc \in {"", "Some text."}}

-----------------------------------------------------------------------------
(* A class template and the ways of asking for one of its specializations *)

Arg(text, t) == [s |-> text, t |-> t]
SpecOf(t, arg) == [t |-> t, a |-> <<arg>>, o |-> <<>>]
TemplateFirst(arg, ta) ==
  {<<>>}
  \cup {<<[Decl("inst", "", 1, an) EXCEPT !.ref = SpecOf(3, arg)]>> :
          an \in {<<>>, G(Ann("expose_as", <<Lit("Y")>>))} \cup (IF ta = G(A("hidden")) THEN {} ELSE {Visible})}
  \cup {<<[Rec("X", 1, an) EXCEPT !.ref = SpecOf(3, arg)], Fun("g", 6, <<>>)>> : an \in {<<>>, Visible}}
TemplateSecond(o, arg) ==
  {<<>>}
  \cup {<<[Decl("alias", "L", o, an) EXCEPT !.ref = SpecOf(3, arg)]>> :
          an \in {<<>>, Visible, G(A("hidden")), G(A("expose_here")), G(A("encourage"))}}
  \cup {<<[Rec("D", o, an) EXCEPT !.bases = <<[t |-> 3, acc |-> ac, a |-> <<arg>>, o |-> <<>>]>>]>> :
          an \in {Visible, G(A("inline_base")), G(A("hide_base"))}, ac \in {"pub", "pri"}}
  \cup {<<Rec("F", o, <<>>), [Field("u", o + 1, <<>>) EXCEPT !.acc = "pri", !.uses = <<SpecOf(3, arg)>>]>>}
UTemplates(dummy) ==
  UNION {UNION {UNION {
    {Pr(<<Ns("n", 0, na), Rec("A", 1, <<>>), [Rec("X", 1, ta) EXCEPT !.tps = <<"T">>],
          [Fun("f", 3, <<>>) EXCEPT !.params = <<Param("x", "T", "-")>>], Field("v", 3, <<>>)>>
        \o first \o <<Ns("o", 0, Visible)>> \o second) : second \in TemplateSecond(6 + Len(first), arg)}
    : first \in TemplateFirst(arg, ta)} : ta \in {<<>>, <<<<>>>>, Visible, G(A("hidden"))}}
    : na \in {<<>>, Visible, <<<<A("module"), A("visible")>>>>}, arg \in {Arg("int", 0), Arg("n::A", 2)}}

-----------------------------------------------------------------------------
(* Texts of annotations *)

Pieces == {"visible", "hidden", "expose_as", "noconvert", "bogus", "(", ")", ",", "true", "default", "x", "1", "\"x\"",
           "\"", " ", "-"}
RECURSIVE Sentences(_)
Sentences(m) == IF m = 0 THEN {""} ELSE {a \o b : a \in Sentences(m - 1), b \in Pieces}
Written(n, p, text) == [Fun(n, p, <<>>) EXCEPT !.raw = <<text>>, !.params = <<Param("x", "int", "-")>>]
\* Programs with `size` of the texts each, on functions or on methods.
Chapters(texts, size) ==
  LET all == SetToSeq(texts)
      count == (Len(all) + size - 1) \div size
      part(m) == SubSeq(all, (m - 1) * size + 1, Min({m * size, Len(all)}))
  IN {Pr(<<IF m % 2 = 0 THEN Ns("n", 0, Visible) ELSE Rec("R", 0, Visible)>>
         \o [q \in DOMAIN part(m) |-> Written("f" \o ToString(q), 1, part(m)[q])]) : m \in 1..count}
UTexts(dummy) == Chapters(UNION {Sentences(m) : m \in 0..4}, 32)

Spaces == {"", " ", "\t "}
OneArg(name, args) == {name \o a \o "(" \o b \o x \o c \o ")" : a \in Spaces, b \in Spaces, x \in args, c \in {"", " ", ",", " ,", ", "}}
Phrases(dummy) ==
  {"visible", "hidden", "visible()", "visible (\t)", "hidden( )"}
  \cup OneArg("expose_as", {"y", "\"y\"", "\"true\"", "default", "\"default\"", "_0"})
  \cup OneArg("visible", {"true", "false", "default"})
  \cup OneArg("noconvert", {"x", "\"x\"", "x,x", "x , \"x\""})
  \cup OneArg("return_value_policy", {"copy", "\"move\""})
UTextsValid(dummy) ==
  LET simple == {"visible", "hidden", "expose_as(y)", "noconvert(\"x\")", "visible(default)", "expose_as ( default ,)"} IN
  Chapters({a \o b \o c : a \in {"", " "}, b \in Phrases(0), c \in {"", " ", ",", " , "}}
           \cup {a \o s \o b \o s2 \o c : a \in simple, b \in simple, c \in simple, s \in {",", " ,\t"}, s2 \in {",", " , "}}, 24)

-----------------------------------------------------------------------------

\* (The operators have an argument as TLC evaluates all constants when it starts.)
Universe(name) ==
  CASE name = "visibility" -> UVisibility(0)
    [] name = "visibility_deep" -> UVisibilityDeep(0)
    [] name = "names" -> UNames(0)
    [] name = "aliases" -> UAliases(0)
    [] name = "only_expose_in" -> UOnlyExposeIn(0)
    [] name = "bases" -> UBases(0)
    [] name = "bases2" -> UBases2(0)
    [] name = "reopened" -> UReopened(0)
    [] name = "constructors" -> UConstructors(0)
    [] name = "signatures" -> LegalSignatures(0)
    [] name = "policies" -> UPolicies(0)
    [] name = "properties" -> UProperties(0)
    [] name = "operators" -> UOperators(0)
    [] name = "enums" -> UEnums(0)
    [] name = "variables" -> UVariables(0)
    [] name = "manual" -> UManual(0)
    [] name = "postamble" -> UPostamble(0)
    [] name = "order" -> LegalOrder(0)
    [] name = "order_inline" -> UOrderInline(0)
    [] name = "misuse" -> UMisuse(0)
    [] name = "misuse_pairs" -> UMisusePairs(0)
    [] name = "texts" -> UTexts(0)
    [] name = "texts_valid" -> UTextsValid(0)
    [] name = "templates" -> UTemplates(0)
    [] name = "class_options" -> UClassOptions(0)

\* VF_WANT members, spread evenly (all if there are not more).
Chosen(dummy) ==
  LET all == SetToSeq(Universe(IOEnv.VF_UNIVERSE))
      stride == Max({1, Len(all) \div atoi(IOEnv.VF_WANT)})
      first == atoi(IOEnv.VF_OFFSET) % stride
      n == (Len(all) - first + stride - 1) \div stride
  IN [size |-> Len(all), programs |-> [i \in 1..n |-> all[(i - 1) * stride + first + 1]]]

\* Written once; the bound variable makes TLC compute the universe only once.
UniverseInit ==
  \E c \in {Chosen(0)} :
    /\ PrintT("UNIVERSE|" \o ToString(c.size) \o "|" \o ToString(Len(c.programs)))
    /\ ndJsonSerialize(IOEnv.VF_OUT, c.programs)
    /\ InitWith(c.programs)
UniverseSpec == UniverseInit /\ [][Next]_vars /\ WF_vars(Next)

Lemmas ==
  /\ TypeOK /\ FailedMeansNothing /\ DoneMeansNoError /\ ScopesFirst /\ BasesFirst /\ OnceEach
  /\ HiddenStaysHidden /\ VisibleGetsRegistered /\ NothingForeign /\ MovedToAlias
  /\ OneModulePerNamespace /\ TextsAreCanonical /\ PropertiesAreNoMethods /\ OnlyPublicBases
=============================================================================
