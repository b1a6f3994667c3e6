------------------------------ MODULE Genpybind ------------------------------
(***************************************************************************)
(* The meaning of an annotated C++ header: which Python registrations the  *)
(* generated extension module performs, where, under which name and in     *)
(* which order, and which declarations are diagnosed.                      *)
(*                                                                         *)
(* A program P is a record [mod, w, d]: the name of the generated module,  *)
(* whether the whole program is wrapped in a namespace, and the sequence   *)
(* of declarations in source order.  A declaration refers to  *)
(* others by index; 0 stands for the file scope.  See vf/prog.py for the   *)
(* fields.                                                                 *)
(***************************************************************************)
EXTENDS Grammar, Templates, Functions

Ix(P) == 1..Len(P.d)
Tags == {"rec", "enum"}
Nodes(P) == {i \in Ix(P) : P.d[i].k \in Tags \cup {"ns"}}
IsTag(P, i) == i # 0 /\ P.d[i].k \in Tags
IsNs(P, i) == i # 0 /\ P.d[i].k = "ns"
IsRec(P, i) == i # 0 /\ P.d[i].k = "rec"

\* Linkage specifications are no scopes: the lookup context is further out.
RECURSIVE CtxOf(_, _)
CtxOf(P, i) ==
  IF i = 0 THEN 0
  ELSE LET q == P.d[i].p IN
       IF q = 0 THEN 0 ELSE IF P.d[q].k = "extern" THEN CtxOf(P, q) ELSE q
Ctx(P) == [i \in Ix(P) |-> CtxOf(P, i)]

\* All parts of a (reopened) namespace, or the scope itself.
Parts(P, c) == IF IsNs(P, c) THEN {j \in Ix(P) : P.d[j].canon = P.d[c].canon} ELSE {c}

\* Fully qualified name, used to match hide_base/inline_base arguments.
RECURSIVE Qual(_, _)
Qual(P, i) == IF i = 0 THEN "" ELSE Qual(P, CtxOf(P, i)) \o "::" \o P.d[i].n
NameMatches(P, i, m) ==
  IF StartsWith(m, "::") THEN Qual(P, i) = m ELSE EndsWith(Qual(P, i), "::" \o m)

\* A class or enum as the compiler calls it.
RECURSIVE TypeText(_, _)
TypeText(P, i) ==
  LET c == CtxOf(P, i)  x == P.d[i] IN
  (IF c = 0 THEN "" ELSE TypeText(P, c) \o "::") \o (IF x.args = <<>> THEN x.n ELSE Displayed(x.n, x.args))

RECURSIVE AllBases(_, _)
AllBases(P, c) ==
  UNION {{P.d[c].bases[k].t} \cup AllBases(P, P.d[c].bases[k].t) : k \in DOMAIN P.d[c].bases}
DirectBases(P, c) == {P.d[c].bases[k].t : k \in DOMAIN P.d[c].bases}

-----------------------------------------------------------------------------
(* Annotations *)

\* Annotations may be given as text; `badann` marks declarations with a text that has no meaning.
Understood(x) ==
  IF x.raw = <<>> THEN x
  ELSE LET r == [m \in DOMAIN x.raw |-> ParseText(x.raw[m])] IN
       [x EXCEPT !.anns = @ \o [m \in DOMAIN r |-> r[m].anns], !.badann = @ \/ \E m \in DOMAIN r : ~r[m].ok]
Load(P) == Elaborate([P EXCEPT !.d = [i \in DOMAIN @ |-> Understood(@[i])]])

HasAnns(x) == x.anns # <<>>
NonEmptyAnns(x) == \E i \in DOMAIN x.anns : x.anns[i] # <<>>
AllAnns(x) == FlattenSeq(x.anns)

Attrs0 == [has |-> FALSE, err |-> FALSE, warn |-> 0, vis |-> "D", name |-> "",
  module |-> FALSE, oei |-> <<>>, arith |-> FALSE, exp |-> "D", get |-> {},
  set |-> {}, dyn |-> FALSE, hide |-> {}, inl |-> {}, holder |-> "",
  impl |-> FALSE, keep |-> <<>>, nc |-> {}, req |-> {}, rvp |-> "",
  manual |-> FALSE, post |-> FALSE, here |-> FALSE, enc |-> FALSE, ro |-> FALSE]

IsMethodLike(P, i) ==     \* may be a getter or setter
  /\ P.d[i].k = "fun" /\ ~P.d[i].fr
  /\ IsRec(P, CtxOf(P, i))
  /\ P.d[i].op \in {"", "()"}
IsFunctionLike(P, i) == P.d[i].k \in {"fun", "ctor", "conv"}

\* Where an annotation may be used at all.
Applies(P, i, name) ==
  LET k == P.d[i].k IN
  CASE name \in {"expose_as", "hidden", "visible"} -> TRUE
    [] name \in {"module", "only_expose_in"} -> k = "ns"
    [] name \in {"arithmetic", "export_values"} -> k = "enum"
    [] name \in {"getter_for", "setter_for"} -> IsMethodLike(P, i)
    [] name \in {"dynamic_attr", "hide_base", "holder_type", "inline_base"} -> k = "rec"
    [] name = "implicit_conversion" -> k = "ctor"
    [] name \in {"keep_alive", "noconvert", "required", "return_value_policy"} -> IsFunctionLike(P, i)
    [] name \in {"manual", "postamble", "readonly"} -> k \in {"field", "var", "manual"}
    [] name \in {"expose_here", "encourage"} -> k = "alias"
    [] OTHER -> FALSE

ParamNames(P, i) == [k \in DOMAIN P.d[i].params |-> P.d[i].params[k].n]
MinArgs(P, i) ==
  Cardinality({k \in DOMAIN P.d[i].params : P.d[i].params[k].d = "-"})
SelfSlot(P, i) ==         \* pybind11 counts the instance as argument 1
  \/ P.d[i].k \in {"ctor", "conv"}
  \/ P.d[i].k = "fun" /\ ~P.d[i].fr /\ IsRec(P, CtxOf(P, i)) /\ ~P.d[i].st
KeepNames(P, i) ==
  <<"return">> \o (IF SelfSlot(P, i) THEN <<"this">> ELSE <<>>) \o ParamNames(P, i)
FirstIndex(seq, x) == CHOOSE k \in DOMAIN seq : seq[k] = x /\ \A j \in 1..(k-1) : seq[j] # x

\* Extra demands of an annotation on the annotated declaration.
Suitable(P, i, name) ==
  LET x == P.d[i] IN
  CASE name = "getter_for" -> MinArgs(P, i) = 0 /\ x.ret # "void"
    [] name = "setter_for" -> Len(x.params) >= 1 /\ MinArgs(P, i) <= 1
    [] name = "implicit_conversion" -> Len(x.params) = 1
    [] name = "manual" -> x.k = "manual"
    [] name = "postamble" -> x.k = "manual" /\ x.p = 0 /\ ~P.w
    [] OTHER -> TRUE

Str(a) == \A k \in DOMAIN a : a[k].t = "s"
Vals(a) == {a[k].v : k \in DOMAIN a}
FlagArgs(a) == a = <<>> \/ (Len(a) = 1 /\ a[1].t = "b")
FlagVal(a) == a = <<>> \/ a[1].v = "true"

\* Number, types and values of the arguments.
ArgsOk(P, i, name, a) ==
  CASE name \in {"hidden", "manual", "postamble", "expose_here", "encourage"} -> a = <<>>
    [] name = "visible" -> a = <<>> \/ (Len(a) = 1 /\ a[1].t \in {"b", "d"})
    [] name = "expose_as" ->
         Len(a) = 1 /\ (a[1].t = "d" \/ (a[1].t = "s" /\ ValidIdentifier(a[1].v)))
    [] name = "module" -> a = <<>> \/ (Len(a) = 1 /\ a[1].t = "s" /\ ValidIdentifier(a[1].v))
    [] name = "only_expose_in" -> Len(a) >= 1 /\ Str(a)
    [] name \in {"arithmetic", "export_values", "dynamic_attr", "implicit_conversion", "readonly"} -> FlagArgs(a)
    [] name \in {"hide_base", "inline_base"} -> Str(a)
    [] name \in {"holder_type", "return_value_policy"} -> Len(a) = 1 /\ Str(a)
    [] name \in {"getter_for", "setter_for"} ->
         Len(a) >= 1 /\ Str(a) /\ \A k \in DOMAIN a : ValidIdentifier(a[k].v)
    [] name = "keep_alive" -> Len(a) = 2 /\ Str(a) /\ Vals(a) \subseteq Range(KeepNames(P, i))
    [] name \in {"noconvert", "required"} ->
         Len(a) >= 1 /\ Str(a) /\ Vals(a) \subseteq Range(ParamNames(P, i))
    [] OTHER -> FALSE

\* The effect of one acceptable annotation.
Apply(P, i, at, name, a) ==
  CASE name = "hidden" -> [at EXCEPT !.vis = "F"]
    [] name = "visible" ->
         [at EXCEPT !.vis = IF a = <<>> THEN "T" ELSE IF a[1].t = "d" THEN "D"
                            ELSE IF a[1].v = "true" THEN "T" ELSE "F"]
    [] name = "expose_as" -> [at EXCEPT !.name = IF a[1].t = "d" THEN "" ELSE a[1].v]
    [] name = "module" ->
         [at EXCEPT !.module = TRUE, !.name = IF a = <<>> THEN @ ELSE a[1].v]
    [] name = "only_expose_in" -> [at EXCEPT !.oei = @ \o [k \in DOMAIN a |-> a[k].v]]
    [] name = "arithmetic" -> [at EXCEPT !.arith = FlagVal(a)]
    [] name = "export_values" -> [at EXCEPT !.exp = IF FlagVal(a) THEN "T" ELSE "F"]
    [] name = "dynamic_attr" -> [at EXCEPT !.dyn = FlagVal(a)]
    [] name = "implicit_conversion" -> [at EXCEPT !.impl = FlagVal(a)]
    [] name = "readonly" -> [at EXCEPT !.ro = FlagVal(a)]
    [] name = "hide_base" ->
         LET m == {b \in DirectBases(P, i) : a = <<>> \/ \E v \in Vals(a) : NameMatches(P, b, v)}
         IN [at EXCEPT !.hide = @ \cup m, !.warn = IF m = {} THEN @ + 1 ELSE @]
    [] name = "inline_base" ->
         LET m == {b \in AllBases(P, i) : a = <<>> \/ \E v \in Vals(a) : NameMatches(P, b, v)}
         IN [at EXCEPT !.inl = @ \cup m, !.warn = IF m = {} THEN @ + 1 ELSE @]
    [] name = "holder_type" -> [at EXCEPT !.holder = a[1].v]
    [] name = "return_value_policy" -> [at EXCEPT !.rvp = a[1].v]
    [] name = "getter_for" -> [at EXCEPT !.get = @ \cup Vals(a)]
    [] name = "setter_for" -> [at EXCEPT !.set = @ \cup Vals(a)]
    [] name = "keep_alive" ->
         LET names == KeepNames(P, i) IN
         [at EXCEPT !.keep = Append(@, <<FirstIndex(names, a[1].v) - 1, FirstIndex(names, a[2].v) - 1>>)]
    [] name = "noconvert" ->
         [at EXCEPT !.nc = @ \cup {FirstIndex(ParamNames(P, i), v) : v \in Vals(a)}]
    [] name = "required" ->
         [at EXCEPT !.req = @ \cup {FirstIndex(ParamNames(P, i), v) : v \in Vals(a)}]
    [] name = "manual" -> [at EXCEPT !.manual = TRUE]
    [] name = "postamble" -> [at EXCEPT !.post = TRUE]
    [] name = "expose_here" -> [at EXCEPT !.here = TRUE, !.err = @ \/ at.enc]
    [] name = "encourage" -> [at EXCEPT !.enc = TRUE, !.err = @ \/ at.here]
    [] OTHER -> at

AnnOk(P, i, ann) ==
  /\ Applies(P, i, ann.n)
  /\ Suitable(P, i, ann.n)
  /\ ArgsOk(P, i, ann.n, ann.a)

ApplyIfOk(P, i, at, ann) ==
  IF AnnOk(P, i, ann) THEN Apply(P, i, at, ann.n, ann.a) ELSE [at EXCEPT !.err = TRUE]

Implied(P, i) == IF P.d[i].k # "ns" /\ NonEmptyAnns(P.d[i]) THEN "T" ELSE "D"

AttrsOf(P, i) ==
  LET x == P.d[i] IN
  IF ~HasAnns(x) \/ x.skip THEN Attrs0
  ELSE LET start == [Attrs0 EXCEPT !.has = TRUE, !.vis = Implied(P, i),
                       !.err = (x.k = "alias" /\ x.tgt = 0) \/ x.badann,
                       !.warn = IF x.k = "alias" /\ x.cvq THEN 1 ELSE 0]
       IN FoldLeft(LAMBDA at, ann : ApplyIfOk(P, i, at, ann), start, AllAnns(x))

AllAttrs(P) == [i \in Ix(P) |-> AttrsOf(P, i)]

-----------------------------------------------------------------------------
(* Reopened namespaces have to be annotated consistently *)

RECURSIVE LexWithin(_, _, _)
LexWithin(P, i, c) == i = c \/ (i # 0 /\ LexWithin(P, P.d[i].lex, c))
Inside(P, i, c) == LexWithin(P, i, c)

SawAnnotations(P, at, c) == \E i \in Ix(P) : at[i].has /\ Inside(P, i, c)
NsAttrs(at, c) == <<at[c].has, at[c].vis, at[c].name, at[c].module, at[c].oei>>

NamespaceErrors(P, at) ==
  {c \in {i \in Ix(P) : P.d[i].k = "ns"} :
     /\ SawAnnotations(P, at, c)
     /\ \E f \in Parts(P, c) :
          /\ f < c /\ SawAnnotations(P, at, f)
          /\ \A g \in Parts(P, c) : (g < f) => ~SawAnnotations(P, at, g)
          /\ NsAttrs(at, f) # NsAttrs(at, c)}

AnnotationErrors(P, at) ==
  {i \in Ix(P) : at[i].err} \cup NamespaceErrors(P, at)

-----------------------------------------------------------------------------
(* Aliases may move or encourage their target *)

Aliases(P, at) == SetToSortSeq({i \in Ix(P) : P.d[i].k = "alias" /\ at[i].has}, <)

AliasStep(P, r, i) ==
  LET a == r.at[i]
      t == P.d[i].tgt
      enc == IF a.enc THEN [r EXCEPT !.at[t].vis = "T", !.at[t].has = TRUE] ELSE r
  IN IF ~a.here THEN enc
     ELSE IF enc.moved[t] # 0 THEN [enc EXCEPT !.err = @ \cup {i}]
     ELSE [enc EXCEPT !.moved[t] = i, !.at[t].has = TRUE, !.at[t].vis = a.vis,
             !.at[t].name = IF a.name = "" THEN P.d[i].n ELSE a.name]

\* [at: attributes with the effects of aliases, moved: alias a tag was moved by (or 0), err]
Relocate(P, at) ==
  FoldLeft(LAMBDA r, i : AliasStep(P, r, i),
           [at |-> at, moved |-> [i \in Ix(P) |-> 0], err |-> {}], Aliases(P, at))

GraphParents(P, ctx, moved) ==
  [i \in Ix(P) |-> IF moved[i] # 0 THEN ctx[moved[i]] ELSE ctx[i]]

RECURSIVE Reaches(_, _, _)
Reaches(gpar, i, fuel) == i = 0 \/ (fuel > 0 /\ Reaches(gpar, gpar[i], fuel - 1))
Unreachable(P, gpar) == {i \in Nodes(P) : ~Reaches(gpar, i, Len(P.d))}

-----------------------------------------------------------------------------
(* Visibility *)

RECURSIVE VisOf(_, _, _, _)
VisOf(P, at, gpar, i) ==
  IF i = 0 THEN FALSE
  ELSE IF at[i].vis # "D" THEN at[i].vis = "T"
  ELSE P.d[i].acc \notin {"pro", "pri"} /\ VisOf(P, at, gpar, gpar[i])

\* v[i+1] is the effective visibility of node i (v[1] belongs to the file scope).
Visibility(P, at, gpar) ==
  [n \in 1..(Len(P.d) + 1) |->
     IF n = 1 \/ n - 1 \notin Nodes(P) THEN FALSE ELSE VisOf(P, at, gpar, n - 1)]
V(v, c) == v[c + 1]

\* What unqualified lookup in scope c finds, apart from nested scopes: [d, acc, at]
\* ("other" stands for what is never exposed itself, such as alias templates)
LookupKinds == {"fun", "ctor", "dtor", "conv", "field", "var", "alias", "using", "manual", "tmpl", "other"}
RECURSIVE CtorsNamed(_, _, _)
\* Constructors named by a using-declaration for those of class c.
CtorsNamed(P, ctx, c) ==
  {j \in Ix(P) : P.d[j].k = "ctor" /\ ctx[j] = c} \cup
  UNION {CtorsNamed(P, ctx, P.d[j].tgt) : j \in {i \in Ix(P) : P.d[i].k = "inh" /\ ctx[i] = c}}
Own(P, ctx, c) ==
  LET parts == Parts(P, c)
      ctors == UNION {{[d |-> m, acc |-> P.d[j].acc, at |-> j] : m \in CtorsNamed(P, ctx, P.d[j].tgt)} :
                        j \in {i \in Ix(P) : P.d[i].k = "inh" /\ ctx[i] = c}}
      direct == {[d |-> IF P.d[j].k = "using" THEN P.d[j].tgt ELSE j, acc |-> P.d[j].acc, at |-> j] :
                  j \in {i \in Ix(P) : P.d[i].k \in LookupKinds /\ ~P.d[i].fr /\ ctx[i] \in parts}}
      values == {[d |-> j, acc |-> P.d[ctx[j]].acc, at |-> j] :
                  j \in {i \in Ix(P) : /\ P.d[i].k = "ev"
                                       /\ \/ ctx[i] \in parts
                                          \/ ~P.d[ctx[i]].scoped /\ ctx[ctx[i]] \in parts}}
  IN {f \in direct : ~IsTag(P, f.d)} \cup values \cup ctors
Accessible(f) == f.acc \in {"pub", "none"}
VisibleIn(at, f, default) == IF at[f.d].vis = "D" THEN default ELSE at[f.d].vis = "T"

Children(P, gpar, c) == {j \in Nodes(P) : gpar[j] = c}

RECURSIVE Has(_, _, _, _, _, _)
Has(P, ctx, at, gpar, v, c) ==
  \/ \E j \in Children(P, gpar, c) : IsTag(P, j) /\ V(v, j)
  \/ \E f \in Own(P, ctx, c) : Accessible(f) /\ VisibleIn(at, f, V(v, c))
  \/ \E j \in Children(P, gpar, c) :
        ~(IsTag(P, j) /\ ~V(v, j)) /\ Has(P, ctx, at, gpar, v, j)
ContextsWithVisible(P, ctx, at, gpar, v) ==
  {c \in Nodes(P) \cup {0} : Has(P, ctx, at, gpar, v, c)}

\* only_expose_in
ForeignNs(P, at, c) ==
  IsNs(P, c) /\ \E q \in Parts(P, c) : at[q].oei # <<>> /\ P.mod \notin Range(at[q].oei)
RECURSIVE Foreign(_, _, _, _)
Foreign(P, at, gpar, c) == c # 0 /\ (ForeignNs(P, at, c) \/ Foreign(P, at, gpar, gpar[c]))
ForeignContexts(P, at, gpar) == {c \in Nodes(P) : Foreign(P, at, gpar, c)}

RECURSIVE Keep(_, _, _, _, _)
Keep(P, gpar, v, with, c) ==
  /\ IF IsTag(P, c) THEN V(v, c) ELSE c \in with
  /\ c = 0 \/ Keep(P, gpar, v, with, gpar[c])
KeptContexts(P, gpar, v, with) == {c \in Nodes(P) \cup {0} : Keep(P, gpar, v, with, c)}

\* Scopes whose visible content gets lost; reported at the alias that moved them.
LostContexts(moved, with, kept) ==
  {IF moved[c] # 0 THEN moved[c] ELSE c : c \in (with \ kept) \ {0}}

-----------------------------------------------------------------------------
(* Scopes, names, order *)

Transparent(P, at, c) == IsNs(P, c) /\ at[c].has /\ ~at[c].module
RECURSIVE ScopeOf(_, _, _, _)
ScopeOf(P, at, gpar, i) ==
  LET q == gpar[i] IN IF Transparent(P, at, q) THEN ScopeOf(P, at, gpar, q) ELSE q

\* A reopened namespace is represented by its first annotated (else first) part.
RepOf(P, at, order, c) ==
  IF ~IsNs(P, c) THEN c
  ELSE LET parts == SelectSeq(order, LAMBDA j : j \in Parts(P, c))
           annotated == SelectSeq(parts, LAMBDA j : at[j].has)
       IN IF annotated # <<>> THEN annotated[1] ELSE parts[1]
\* The first part in the order is the one that is processed.
IsFirstPart(P, order, k) ==
  ~IsNs(P, order[k]) \/ \A m \in 1..(k-1) : order[m] \notin Parts(P, order[k])

OpTexts == [n |-> {"+","-","*","/","%","^","&","|","~","<",">","+=","-=","*=","/=","%=","^=",
                   "&=","|=","<<",">>","<<=",">>=","==","!=","<=",">=","<=>"}]
DefaultSpelling(P, i) ==
  LET x == P.d[i] IN
  CASE x.k = "conv" -> MakeIdentifier("operator " \o x.ret)
    [] x.op = "()" -> "__call__"
    [] x.op # "" -> MakeIdentifier("operator" \o x.op)
    [] x.args # <<>> -> MakeIdentifier(Displayed(x.n, x.args))
    [] OTHER -> x.n
Spelling(P, at, i) == IF at[i].name # "" THEN at[i].name ELSE DefaultSpelling(P, i)

RECURSIVE PathOf(_, _, _, _, _)
PathOf(P, at, gpar, order, c) ==     \* Python path of the object for scope c
  IF c = 0 THEN ""
  ELSE LET r == RepOf(P, at, order, c)
           outer == PathOf(P, at, gpar, order, gpar[r])
       IN IF IsNs(P, c) /\ ~at[r].module THEN outer
          ELSE outer \o "." \o Spelling(P, at, r)

\* What can be inspected with --dump-graph: each scope with its name, place and visibility.
RECURSIVE FullName(_, _, _)
FullName(P, ctx, i) ==
  (IF ctx[i] = 0 THEN "" ELSE FullName(P, ctx, ctx[i]) \o "::")
  \o (IF P.d[i].args # <<>> THEN Displayed(P.d[i].n, P.d[i].args) ELSE P.d[i].n)
ScopeGraph(P, ctx, at, gpar, v, nodes) ==
  LET one(i) == [n |-> FullName(P, ctx, i), up |-> IF gpar[i] = 0 THEN "" ELSE FullName(P, ctx, gpar[i]),
                 as |-> IF at[i].has /\ Spelling(P, at, i) # P.d[i].n THEN Spelling(P, at, i) ELSE "",
                 vis |-> V(v, i)]
      seq == SetToSeq(nodes)
  IN [m \in DOMAIN seq |-> one(seq[m])]

-----------------------------------------------------------------------------
(* Base classes *)

RECURSIVE Closure(_, _, _, _)
\* inline_base/hide_base annotations of inlined bases count as one's own.
Closure(at, todo, inl, hide) ==
  IF todo = {} THEN [inl |-> inl, hide |-> hide]
  ELSE LET c == CHOOSE x \in todo : TRUE
           new == at[c].inl \ inl
       IN Closure(at, (todo \ {c}) \cup new, inl \cup new, hide \cup at[c].hide)

RECURSIVE OpenPath(_, _, _, _)
OpenPath(P, hide, c, b) ==           \* a public path without hidden bases from c to b
  \E k \in DOMAIN P.d[c].bases :
    LET x == P.d[c].bases[k] IN
    /\ x.acc = "pub" /\ x.t \notin hide
    /\ x.t = b \/ OpenPath(P, hide, x.t, b)

Policy(P, at, c) ==
  LET z == Closure(at, {c}, {}, {}) IN
  [hide |-> z.hide, inl |-> {b \in z.inl : OpenPath(P, z.hide, c, b)}]

RECURSIVE BaseList(_, _, _, _)
BaseList(P, pol, kept, c) ==
  FlattenSeq([k \in DOMAIN P.d[c].bases |->
    LET x == P.d[c].bases[k] IN
    IF x.acc # "pub" \/ x.t \in pol.hide THEN <<>>
    ELSE IF x.t \in pol.inl THEN BaseList(P, pol, kept, x.t)
    ELSE IF x.t \in kept THEN <<x.t>> ELSE <<>>])

RECURSIVE Awaited(_, _, _, _)
\* Exposed public bases, those of inlined bases included.
Awaited(P, pol, kept, c) ==
  UNION {LET x == P.d[c].bases[m].t IN
         ({x} \cap kept) \cup (IF x \in pol.inl THEN Awaited(P, pol, kept, x) ELSE {})
         : m \in {n \in DOMAIN P.d[c].bases : P.d[c].bases[n].acc = "pub"}}

Preds(P, at, gpar, kept, i) ==
  IF i = 0 THEN {} ELSE {ScopeOf(P, at, gpar, i)} \cup Awaited(P, Policy(P, at, i), kept, i)

RECURSIVE Topo(_, _, _)
Topo(preds, todo, done) ==
  LET ready == {i \in todo : preds[i + 1] \subseteq Range(done)} IN
  IF ready = {} THEN done
  ELSE LET i == Min(ready) IN Topo(preds, todo \ {i}, Append(done, i))
\* Every scope after its enclosing one and its bases, otherwise in source order;
\* shorter than the set of scopes if that is impossible.
SortContexts(P, at, gpar, kept) ==
  Topo([n \in 1..(Len(P.d) + 1) |-> IF n - 1 \in kept THEN Preds(P, at, gpar, kept, n - 1) ELSE {}],
       kept, <<>>)

\* Names that hide equally named members of base classes.
NameKey(P, j) ==
  LET x == P.d[j] IN
  CASE x.k = "ctor" -> "ctor" \o ToString(x.p)
    [] x.k = "dtor" -> "dtor" \o ToString(x.p)
    [] x.k = "conv" -> "operator " \o x.ret
    [] x.k = "manual" -> "manual" \o ToString(j)
    [] x.op # "" -> "operator" \o x.op
    [] OTHER -> x.n
HidingNames(P, ctx, c) == {NameKey(P, f.d) : f \in Own(P, ctx, c)}

RECURSIVE InBases(_, _, _, _, _, _)
\* Depth-first through the bases of c; r = [seen, found]
InBases(P, ctx, pol, c, names, r) ==
  FoldLeft(LAMBDA acc, x :
      IF x.t \in acc.seen THEN acc
      ELSE LET own == {f \in Own(P, ctx, x.t) : NameKey(P, f.d) \notin names}
               take == IF x.t \in pol.inl
                       THEN {f \in own : P.d[f.d].k \notin {"ctor", "dtor"}} ELSE {}
           IN InBases(P, ctx, pol, x.t, names \cup HidingNames(P, ctx, x.t),
                      [seen |-> acc.seen \cup {x.t}, found |-> acc.found \cup take]),
    r, P.d[c].bases)

Members(P, ctx, at, c) ==
  IF ~IsRec(P, c) THEN Own(P, ctx, c)
  ELSE Own(P, ctx, c) \cup
       InBases(P, ctx, Policy(P, at, c), c, HidingNames(P, ctx, c), [seen |-> {c}, found |-> {}]).found

-----------------------------------------------------------------------------
(* Constructors provided by C++ *)

ParamTypes(P, j) == [k \in DOMAIN P.d[j].params |-> P.d[j].params[k].ty]
Ctors(P, ctx, c) == {j \in Ix(P) : P.d[j].k = "ctor" /\ ctx[j] = c}
IsCopy(P, j) == P.d[j].cm = "copy"
IsMove(P, j) == P.d[j].cm = "move"
\* Constructor j is the class' own, or inherited from a base.
Constructs(P, ctx, c, j) ==
  \/ ctx[j] = c
  \/ /\ P.d[j].cm = "" /\ P.d[j].acc = "pub"
     /\ ~\E m \in Ctors(P, ctx, c) : ParamTypes(P, m) = ParamTypes(P, j)
     /\ Ctors(P, ctx, c) = {} => P.d[j].params # <<>>
RECURSIVE DefaultConstructible(_, _, _), Copyable(_, _, _)
DefaultConstructible(P, ctx, c) ==
  /\ IF Ctors(P, ctx, c) = {} THEN TRUE
     ELSE \E j \in Ctors(P, ctx, c) : MinArgs(P, j) = 0 /\ ~P.d[j].del /\ P.d[j].acc # "pri"
  /\ Ctors(P, ctx, c) # {} \/ \A b \in DirectBases(P, c) : DefaultConstructible(P, ctx, b)
Copyable(P, ctx, c) ==
  LET own == {j \in Ctors(P, ctx, c) : IsCopy(P, j)} IN
  IF own # {} THEN \E j \in own : ~P.d[j].del /\ P.d[j].acc # "pri"
  ELSE /\ ~\E j \in Ctors(P, ctx, c) : IsMove(P, j)
       /\ \A b \in DirectBases(P, c) : Copyable(P, ctx, b)
ImplicitDefault(P, ctx, c) ==
  Ctors(P, ctx, c) = {} /\ \A b \in DirectBases(P, c) : DefaultConstructible(P, ctx, b)
ImplicitCopy(P, ctx, c) ==
  ~(\E j \in Ctors(P, ctx, c) : IsCopy(P, j)) /\ Copyable(P, ctx, c)

\* A class is abstract if a pure virtual function is not overridden.
RECURSIVE PureNames(_, _, _)
PureNames(P, ctx, c) ==
  LET ms == {j \in Ix(P) : P.d[j].k = "fun" /\ ~P.d[j].fr /\ ctx[j] = c}
      inherited == UNION {PureNames(P, ctx, b) : b \in DirectBases(P, c)}
      sig(j) == <<P.d[j].n, P.d[j].cst, [k \in DOMAIN P.d[j].params |-> P.d[j].params[k].ty]>>
  IN (inherited \ {sig(j) : j \in ms}) \cup {sig(j) : j \in {m \in ms : P.d[m].pure}}
Abstract(P, ctx, c) == PureNames(P, ctx, c) # {}

\* What the recorder can see: it calls member functions on an instance, which
\* for polymorphic classes it has to be able to construct.
RECURSIVE Polymorphic(_, _, _), Constructible(_, _, _)
Polymorphic(P, ctx, c) ==
  \/ \E j \in Ix(P) : ctx[j] = c /\ (P.d[j].virt \/ P.d[j].pure)
  \/ \E b \in DirectBases(P, c) : Polymorphic(P, ctx, b)
Constructible(P, ctx, c) ==
  /\ Ctors(P, ctx, c) # {} => \E j \in Ctors(P, ctx, c) : MinArgs(P, j) = 0 /\ ~P.d[j].del
  /\ Ctors(P, ctx, c) = {} => \A b \in DirectBases(P, c) : Constructible(P, ctx, b)
Probed(P, ctx, c) ==
  ~Polymorphic(P, ctx, c) \/ (Constructible(P, ctx, c) /\ ~Abstract(P, ctx, c))

-----------------------------------------------------------------------------
(* Events: one per registration performed when the module is imported *)

E0 == [e |-> "", c |-> "", n |-> "", d |-> 0, v |-> "", args |-> <<>>, doc |-> "",
       pol |-> "", keep |-> <<>>, bases |-> <<>>, ops |-> <<>>, flags |-> {}, set |-> 0, opts |-> <<>>, bt |-> <<>>]

Args(P, at, j) ==
  LET ps == P.d[j].params
      named == SelectSeq([k \in DOMAIN ps |-> k], LAMBDA k : ps[k].v = "")
  IN [k \in DOMAIN named |-> [n |-> ps[named[k]].n, nc |-> named[k] \in at[j].nc,
        req |-> named[k] \in at[j].req, d |-> ps[named[k]].d]]
\* Nothing can follow **kwargs.
KwargsError(P, j) ==
  \E k \in DOMAIN P.d[j].params : P.d[j].params[k].v = "kwargs"
     /\ k < Len(P.d[j].params)

Callable(P, at, e, path, name, j) ==
  [E0 EXCEPT !.e = e, !.c = path, !.n = name, !.d = j, !.args = Args(P, at, j),
     !.doc = P.d[j].doc, !.pol = at[j].rvp, !.keep = at[j].keep]

UnaryNames == [x \in {"+", "-", "~"} |-> CASE x = "+" -> "__pos__" [] x = "-" -> "__neg__" [] OTHER -> "__invert__"]
BinaryOps == {"+","-","*","/","%","^","&","|","<",">","+=","-=","*=","/=","%=","^=","&=","|=",
              "<<",">>","<<=",">>=","==","!=","<=",">="}
Stem(op) ==
  CASE op = "+" -> "add" [] op = "-" -> "sub" [] op = "*" -> "mul" [] op = "/" -> "truediv"
    [] op = "%" -> "mod" [] op = "^" -> "xor" [] op = "&" -> "and" [] op = "|" -> "or"
    [] op = "<<" -> "lshift" [] op = ">>" -> "rshift" [] OTHER -> ""
Comparison(op) ==
  CASE op = "<" -> "lt" [] op = ">" -> "gt" [] op = "<=" -> "le" [] op = ">=" -> "ge"
    [] op = "==" -> "eq" [] op = "!=" -> "ne" [] OTHER -> ""
Mirrored(op) ==
  CASE op = "<" -> ">" [] op = ">" -> "<" [] op = "<=" -> ">=" [] op = ">=" -> "<=" [] OTHER -> op
\* Python special method for a C++ operator ("" if there is none).
BinaryName(op, reflected) ==
  IF Comparison(op) # "" THEN "__" \o Comparison(IF reflected THEN Mirrored(op) ELSE op) \o "__"
  ELSE IF Stem(op) # "" THEN "__" \o (IF reflected THEN "r" ELSE "") \o Stem(op) \o "__"
  ELSE IF ~reflected /\ op \in BinaryOps THEN "__i" \o Stem(SubSeq(op, 1, Len(op) - 1)) \o "__"
  ELSE ""
OperatorName(op, arity, reflected) ==
  IF arity = 1 THEN IF op \in DOMAIN UnaryNames THEN UnaryNames[op] ELSE ""
  ELSE BinaryName(op, reflected)

IsOperator(P, j) == P.d[j].k = "fun" /\ P.d[j].op \notin {"", "()"}
IsStreamOut(P, j) == P.d[j].op = "<<" /\ Len(P.d[j].ot) = 2 /\ P.d[j].ot[1] = -1
OperatorEvents(P, ctx, at, path, c, j) ==
  LET x == P.d[j]
      member == ~x.fr /\ IsRec(P, ctx[j])
      reflected == ~member /\ x.ot[1] # c
      name == OperatorName(x.op, Len(x.ot), reflected)
  IN IF x.del THEN <<>>
     ELSE IF IsStreamOut(P, j)
     THEN IF at[j].name = "" THEN <<>> ELSE <<[E0 EXCEPT !.e = "def", !.c = path, !.n = at[j].name, !.d = j]>>
     ELSE IF name = "" THEN <<>>
     ELSE <<[E0 EXCEPT !.e = "def", !.c = path, !.n = name, !.d = j, !.doc = x.doc,
               !.flags = {"is_operator"},
               !.ops = IF Len(x.ot) = 1 THEN <<1>> ELSE IF reflected THEN <<2, 1>> ELSE <<1, 2>>]>>

\* Free operators are found through the operand's class and namespace.
AssociatedClasses(P, ctx, c) ==
  {c} \cup AllBases(P, c) \cup (IF IsRec(P, ctx[c]) THEN {ctx[c]} ELSE {})
RECURSIVE NamespaceOf(_, _, _)
\* the innermost namespace that is not inline
NamespaceOf(P, ctx, c) ==
  IF c = 0 \/ (IsNs(P, c) /\ ~P.d[P.d[c].canon].inl) THEN c ELSE NamespaceOf(P, ctx, ctx[c])
RECURSIVE WithInline(_, _, _)
WithInline(P, ctx, scopes) ==
  LET more == {i \in Ix(P) : P.d[i].k = "ns" /\ P.d[P.d[i].canon].inl /\ ctx[i] \in scopes} IN
  IF more \subseteq scopes THEN scopes ELSE WithInline(P, ctx, scopes \cup more)
AssociatedOperators(P, ctx, c) ==
  LET cls == AssociatedClasses(P, ctx, c)
      nss == WithInline(P, ctx, UNION {Parts(P, NamespaceOf(P, ctx, k)) : k \in cls})
  IN {j \in Ix(P) : /\ IsOperator(P, j) /\ P.d[j].op \in OpTexts.n
                    /\ c \in Range(P.d[j].ot)
                    /\ IF P.d[j].fr THEN ctx[j] \in cls ELSE ctx[j] \in nss}

HasProperty(at, j) == at[j].get # {} \/ at[j].set # {}

ImplicitInit(path, arity) ==
  [E0 EXCEPT !.e = "init", !.c = path, !.n = "__init__",
     !.args = [k \in 1..arity |-> [n |-> "", nc |-> FALSE, req |-> FALSE, d |-> "-"]]]

\* Registrations for one visible member f.d of scope c.
MemberEvents(S, c, path, j) ==
  LET P == S.P  ctx == S.ctx  at == S.at  x == P.d[j] IN
  CASE x.k = "manual" ->
         IF at[j].post THEN <<>> ELSE <<[E0 EXCEPT !.e = "manual", !.c = path, !.d = j]>>
    [] x.k = "alias" ->
         IF at[j].vis = "D" \/ at[j].here \/ x.tgt = 0 THEN <<>>
         ELSE <<[E0 EXCEPT !.e = "alias", !.c = path, !.n = Spelling(P, at, j),
                   !.v = IF x.tgt \in S.kept THEN S.paths[x.tgt + 1] ELSE "None"]>>
    [] x.k = "ev" ->
         IF ctx[j] # c THEN <<>>
         ELSE <<[E0 EXCEPT !.e = "value", !.c = path, !.n = Spelling(P, at, j), !.v = x.v, !.doc = x.doc]>>
    [] x.k \in {"field", "var"} ->
         IF IsRec(P, c)
         THEN <<[E0 EXCEPT !.e = (IF x.cst \/ at[j].ro THEN "readonly" ELSE "readwrite")
                                  \o (IF x.k = "var" THEN "_static" ELSE ""),
                   !.c = path, !.n = Spelling(P, at, j),
                   !.v = IF x.k = "var" \/ (Constructible(P, ctx, c) /\ ~Abstract(P, ctx, c)) THEN x.v ELSE "?"]>>
         ELSE <<[E0 EXCEPT !.e = "attr", !.c = path, !.n = Spelling(P, at, j), !.v = x.v]>>
    [] x.k = "ctor" ->
         IF ~IsRec(P, c) \/ x.del \/ IsMove(P, j) \/ Abstract(P, ctx, c) \/ ~Constructs(P, ctx, c, j) THEN <<>>
         ELSE (IF at[j].impl THEN <<[E0 EXCEPT !.e = "implicit", !.d = c, !.v = x.params[1].tn]>> ELSE <<>>)
              \o <<Callable(P, at, "init", path, "__init__", j)>>
    [] IsOperator(P, j) /\ IsRec(P, c) -> OperatorEvents(P, ctx, at, path, c, j)
    [] x.k \in {"fun", "conv"} ->
         IF x.del \/ (IsMethodLike(P, j) /\ HasProperty(at, j)) THEN <<>>
         ELSE <<[Callable(P, at, IF x.st THEN "def_static" ELSE "def", path, Spelling(P, at, j), j)
                  EXCEPT !.d = IF x.st \/ ~IsRec(P, c) \/ Probed(P, ctx, c) THEN j ELSE -1]>>
    [] OTHER -> <<>>

VisibleMembers(S, c) ==
  {f.d : f \in {g \in Members(S.P, S.ctx, S.at, c) : Accessible(g) /\ VisibleIn(S.at, g, V(S.vis, S.rep[c + 1]))}}

PropertyMembers(S, c) ==
  IF ~IsRec(S.P, c) THEN {}
  ELSE {j \in VisibleMembers(S, c) : IsMethodLike(S.P, j) /\ HasProperty(S.at, j) /\ ~S.P.d[j].del}
PropertyNames(S, c) == UNION {S.at[j].get \cup S.at[j].set : j \in PropertyMembers(S, c)}
Getters(S, c, name) == {j \in PropertyMembers(S, c) : name \in S.at[j].get}
Setters(S, c, name) == {j \in PropertyMembers(S, c) : name \in S.at[j].set}
PropertyErrors(S, c) ==
  UNION {
    LET g == Getters(S, c, name)  s == Setters(S, c, name) IN
    (IF g = {} THEN {Max(s)} ELSE {}) \cup (g \ {Min(g \cup {Len(S.P.d) + 1})}) \cup
    (IF s = {} THEN {} ELSE s \ {Min(s)})
    : name \in PropertyNames(S, c)}
Seen(S, c, j) == IF Probed(S.P, S.ctx, c) \/ S.P.d[j].st THEN j ELSE -1
PropertyEvents(S, c, path) ==
  {[E0 EXCEPT !.e = "property", !.c = path, !.n = name,
      !.d = Seen(S, c, CHOOSE j \in Getters(S, c, name) : TRUE),
      !.set = IF Setters(S, c, name) = {} THEN 0
              ELSE Seen(S, c, CHOOSE j \in Setters(S, c, name) : TRUE)] :
     name \in {m \in PropertyNames(S, c) : Getters(S, c, m) # {}}}

CallableErrors(S, c) ==
  {j \in VisibleMembers(S, c) :
     /\ S.P.d[j].k \in {"fun", "ctor", "conv"} /\ KwargsError(S.P, j) /\ ~S.P.d[j].del
     /\ ~(IsOperator(S.P, j) /\ IsRec(S.P, c)) /\ ~(IsMethodLike(S.P, j) /\ HasProperty(S.at, j))
     /\ ~(S.P.d[j].k = "ctor" /\ (Abstract(S.P, S.ctx, c) \/ ~Constructs(S.P, S.ctx, c, j)))}
DefineErrors(S, c) == PropertyErrors(S, c) \cup CallableErrors(S, c)

\* The registrations of scope c as a sequence of groups; the order within a group is open.
DefineGroups(S, c) ==
  LET P == S.P
      path == S.paths[c + 1]
      members == SetToSortSeq(VisibleMembers(S, c), <)
      singles(js) == FlattenSeq([k \in DOMAIN js |->
                       LET es == MemberEvents(S, c, path, js[k]) IN [m \in DOMAIN es |-> <<es[m]>>]])
      \* inlined members and those named by using-declarations are declared before the class
      before == SelectSeq(members, LAMBDA j : j < c)
      after == SelectSeq(members, LAMBDA j : j > c)
      implicit == IF ~IsRec(P, c) \/ Abstract(P, S.ctx, c) THEN <<>>
                  ELSE (IF ImplicitDefault(P, S.ctx, c) THEN <<ImplicitInit(path, 0)>> ELSE <<>>)
                       \o (IF ImplicitCopy(P, S.ctx, c) THEN <<ImplicitInit(path, 1)>> ELSE <<>>)
      found == SetToSeq(AssociatedOperators(P, S.ctx, c))
      assoc == IF ~IsRec(P, c) THEN <<>>
               ELSE FlattenSeq([k \in DOMAIN found |->
                      LET j == found[k] IN
                      IF VisibleIn(S.at, [d |-> j], V(S.vis, c))
                      THEN OperatorEvents(P, S.ctx, S.at, path, c, j) ELSE <<>>])
      props == SetToSeq(PropertyEvents(S, c, path))
      export == IF ~(IsTag(P, c) /\ P.d[c].k = "enum") THEN <<>>
                ELSE IF S.at[c].exp = "T" \/ (S.at[c].exp = "D" /\ ~P.d[c].scoped)
                THEN <<[E0 EXCEPT !.e = "export", !.c = path]>> ELSE <<>>
  IN SelectSeq(singles(before) \o <<implicit>> \o singles(after) \o <<assoc, props, export>>, LAMBDA g : g # <<>>)

\* A type as written, without the explicit mentions of the global scope.
RECURSIVE Plain(_, _, _)
Plain(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE IF SubSeq(s, i, Min({i + 1, Len(s)})) = "::" /\ (i = 1 \/ Chr(s, i - 1) \in {"<", ",", " "})
  THEN Plain(s, i + 2, out) ELSE Plain(s, i + 1, out \o Chr(s, i))

\* Creating the Python object of scope c.
IntroduceEvents(S, c) ==
  LET P == S.P  r == S.rep[c + 1] IN
  IF c = 0 THEN <<>>
  ELSE LET outer == S.outer[c + 1]
           name == Spelling(P, S.at, r) IN
  CASE P.d[c].k = "ns" ->
         IF S.at[r].module THEN <<[E0 EXCEPT !.e = "module", !.c = outer, !.n = name]>> ELSE <<>>
    [] P.d[c].k = "enum" ->
         <<[E0 EXCEPT !.e = "enum", !.c = outer, !.n = name, !.d = c, !.v = TypeText(P, c), !.doc = P.d[c].doc,
              !.flags = IF S.at[c].arith THEN {"arithmetic"} ELSE {}]>>
    [] OTHER ->
         <<[E0 EXCEPT !.e = "class", !.c = outer, !.n = name, !.d = c, !.doc = P.d[c].doc,
              !.v = TypeText(P, c),
              !.bases = BaseList(P, Policy(P, S.at, c), S.kept, c),
              !.bt = LET b == BaseList(P, Policy(P, S.at, c), S.kept, c) IN [m \in DOMAIN b |-> TypeText(P, b[m])],
              !.opts = IF S.at[c].holder = "" THEN <<>> ELSE <<Plain(S.at[c].holder, 1, "")>>,
              !.flags = IF S.at[c].dyn THEN {"dynamic_attr"} ELSE {}]>>

PostambleEvents(S) ==
  LET js == SetToSortSeq({j \in Ix(S.P) : S.P.d[j].k = "manual" /\ S.at[j].post}, <)
  IN [k \in DOMAIN js |-> [E0 EXCEPT !.e = "manual", !.c = "", !.d = js[k]]]
=============================================================================
