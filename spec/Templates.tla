------------------------------ MODULE Templates ------------------------------
(***************************************************************************)
(* What templates mean: every specialization the header asks for is an     *)
(* ordinary declaration in the scope of its template.  Elaborate replaces  *)
(* a program with templates by one without.                                *)
(*                                                                         *)
(* A template is a declaration whose `tps` (names of parameters) is not    *)
(* empty; what it contains is dependent.  Aliases, bases, uses and         *)
(* explicit instantiations ("inst") refer to a specialization by `t`, the  *)
(* arguments `a` of the template itself and the arguments `o` of the class *)
(* template around it.  An argument is a record [s, t]: its text and, if   *)
(* it is a class, the declaration of that class.                           *)
(***************************************************************************)
EXTENDS Strings, SequencesExt, FiniteSetsExt

IsTemplate(P, i) == P.d[i].tps # <<>>
HasTemplates(P) == \E i \in DOMAIN P.d : IsTemplate(P, i)

RECURSIVE AroundTemplate(_, _)
\* The innermost class template around declaration i (or 0).
AroundTemplate(P, i) ==
  LET q == P.d[i].p IN
  IF q = 0 THEN 0
  ELSE IF IsTemplate(P, q) THEN q ELSE AroundTemplate(P, q)
Dependent(P, i) == AroundTemplate(P, i) # 0

\* The contents of class template t that come into being with an instantiation.  Nested classes and
\* scoped enums are only completed if all members are instantiated.
RECURSIVE Lazy(_, _, _)
Lazy(P, t, i) ==
  /\ i # t
  /\ \/ P.d[i].k = "rec" /\ ~IsTemplate(P, i)
     \/ P.d[i].k = "enum" /\ P.d[i].scoped
     \/ P.d[i].p # t /\ Lazy(P, t, P.d[i].p)
BlockOf(P, t, forced) ==
  <<t>> \o SelectSeq([i \in DOMAIN P.d |-> i],
                     LAMBDA i : P.d[i].k # "inst" /\ AroundTemplate(P, i) = t /\ (forced \/ ~Lazy(P, t, i)))

Index(seq, x) == CHOOSE m \in DOMAIN seq : seq[m] = x
\* Arguments of the parameters in scope, for a specialization [t, a, o].
Outer(P, t) == AroundTemplate(P, t)
Subst1(P, key, arg) ==
  LET own == P.d[key.t].tps
      out == IF Outer(P, key.t) = 0 THEN <<>> ELSE P.d[Outer(P, key.t)].tps
  IN IF arg.t = 0 /\ arg.s \in ToSet(own) THEN key.a[Index(own, arg.s)]
     ELSE IF arg.t = 0 /\ arg.s \in ToSet(out) THEN key.o[Index(out, arg.s)]
     ELSE arg
Subst(P, key, args) == [m \in DOMAIN args |-> Subst1(P, key, args[m])]
SubstText(P, key, text) == Subst1(P, key, [s |-> text, t |-> 0]).s

\* Specializations declaration j of the block of `key` asks for; `all`: with all of their members.
NoKey == [t |-> 0, a |-> <<>>, o |-> <<>>]
Asked(P, key, r, all) == [key |-> [t |-> r.t, a |-> Subst(P, key, r.a), o |-> Subst(P, key, r.o)], all |-> all]
AskedBy(P, key, j) ==
  LET x == P.d[j]
      sub(r, all) == IF key = NoKey THEN [key |-> [t |-> r.t, a |-> r.a, o |-> r.o], all |-> all] ELSE Asked(P, key, r, all)
  IN {sub(x.bases[m], FALSE) : m \in {n \in DOMAIN x.bases : x.bases[n].a # <<>>}}
     \cup {sub(x.uses[m], FALSE) : m \in DOMAIN x.uses}
     \cup (IF x.k = "alias" /\ x.anns # <<>> /\ x.ref.t # 0 THEN {sub(x.ref, TRUE)} ELSE {})
     \cup (IF x.k = "inst" THEN {sub(x.ref, TRUE)} ELSE {})

Specialized(P) ==
  {[t |-> P.d[i].ref.t, a |-> P.d[i].ref.a, o |-> P.d[i].ref.o] : i \in {j \in DOMAIN P.d : P.d[j].k \in {"rec", "fun"} /\ P.d[j].ref.t # 0}}
\* Annotated templates are always instantiated with all members.
Complete(P, r) == [r EXCEPT !.all = @ \/ P.d[r.key.t].anns # <<>>]
\* The class template around a member template has to be instantiated as well.
WithOuter(P, r) ==
  {r} \cup (IF Outer(P, r.key.t) = 0 THEN {}
            ELSE {[key |-> [t |-> Outer(P, r.key.t), a |-> r.key.o, o |-> <<>>], all |-> FALSE]})
RECURSIVE Requests(_, _)
Requests(P, rs) ==
  LET done == {Complete(P, r) : r \in rs}
      inner == UNION {LET b == BlockOf(P, r.key.t, r.all) IN
                      UNION {AskedBy(P, r.key, b[m]) : m \in DOMAIN b}
                      : r \in {q \in done : P.d[q.key.t].k = "rec"}}
      more == UNION {WithOuter(P, r) : r \in done \cup {Complete(P, q) : q \in inner}}
      next == {Complete(P, r) : r \in {q \in more : q.key \notin Specialized(P)}}
  IN IF next \subseteq rs THEN rs ELSE Requests(P, rs \cup next)
TopRequests(P) == UNION {IF Dependent(P, i) \/ IsTemplate(P, i) THEN {} ELSE AskedBy(P, NoKey, i) : i \in DOMAIN P.d}

\* Specializations to create, with whether all members are instantiated, in some order.
Wanted(P) ==
  LET rs == Requests(P, UNION {WithOuter(P, r) : r \in {q \in TopRequests(P) : q.key \notin Specialized(P)}})
      keys == {r.key : r \in rs}
  IN SetToSeq({[key |-> c, all |-> \E r \in rs : r.key = c /\ r.all] : c \in keys})

ArgText(args) ==
  FoldLeft(LAMBDA acc, m : acc \o (IF m = 1 THEN "" ELSE ", ") \o args[m].s, "", [m \in DOMAIN args |-> m])
Displayed(name, args) == name \o "<" \o ArgText(args) \o ">"

Elaborate(P) ==
  IF ~HasTemplates(P) THEN P
  ELSE
  LET want == Wanted(P)
      blocks == [m \in DOMAIN want |-> BlockOf(P, want[m].key.t, want[m].all)]
      start == [m \in DOMAIN want |-> Len(P.d) + FoldLeft(LAMBDA acc, n : acc + Len(blocks[n]), 0, [n \in 1..(m - 1) |-> n])]
      find(key) ==  \* index of the declaration for a specialization
        IF \E m \in DOMAIN want : want[m].key = key
        THEN start[CHOOSE m \in DOMAIN want : want[m].key = key] + 1
        ELSE IF key \in Specialized(P)
        THEN CHOOSE i \in DOMAIN P.d : P.d[i].k \in {"rec", "fun"} /\ P.d[i].ref.t # 0
                                      /\ [t |-> P.d[i].ref.t, a |-> P.d[i].ref.a, o |-> P.d[i].ref.o] = key
        ELSE 0  \* only mentioned
      \* what declaration i of the program is called within block m (0: outside of any)
      here(m, i) == IF i = 0 THEN 0
                    ELSE IF m # 0 /\ \E q \in DOMAIN blocks[m] : blocks[m][q] = i
                    THEN start[m] + Index(blocks[m], i) ELSE i
      refer(m, r) ==
        LET key == IF m = 0 THEN [t |-> r.t, a |-> r.a, o |-> r.o] ELSE Asked(P, want[m].key, r, TRUE).key IN
        IF r.a = <<>> THEN here(m, r.t) ELSE find(key)
      insts(m) == SelectSeq([i \in DOMAIN P.d |-> i],
                    LAMBDA i : P.d[i].k = "inst" /\ [t |-> P.d[i].ref.t, a |-> P.d[i].ref.a, o |-> P.d[i].ref.o] = want[m].key)
      text(m, s) == IF m = 0 THEN s ELSE SubstText(P, want[m].key, s)
      arg(m, x) == IF m = 0 THEN x ELSE Subst1(P, want[m].key, x)
      target(m, x) ==   \* of an alias
        IF x.ref.t # 0 THEN refer(m, x.ref)
        ELSE IF x.ref.a # <<>> THEN arg(m, x.ref.a[1]).t   \* a template parameter
        ELSE here(m, x.tgt)
      decl(m, i) ==
        LET x == P.d[i]
            top == m # 0 /\ i = want[m].key.t
            out == IF top THEN Outer(P, i) ELSE 0
            shell == IsTemplate(P, i) /\ ~top
            around == IF out # 0 THEN find([t |-> out, a |-> want[m].key.o, o |-> <<>>]) ELSE 0
            \* a member of a class within the class template around has to be found in that one's block
            ins == IF top THEN insts(m) ELSE <<>>
        IN [x EXCEPT
              !.k = IF shell THEN "tmpl" ELSE @,
              !.p = IF out # 0 THEN around + Index(BlockOf(P, out, TRUE), @) - 1 ELSE here(m, @),
              !.lex = IF ins # <<>> THEN P.d[ins[1]].lex ELSE IF out # 0 THEN around ELSE here(m, @),
              !.canon = @,
              !.anns = IF shell THEN <<>>
                       \* explicit specializations of functions are annotated like the template
                       ELSE (IF x.k = "fun" /\ x.ref.t # 0 THEN P.d[x.ref.t].anns ELSE <<>>) \o @ \o FlattenSeq([q \in DOMAIN ins |-> P.d[ins[q]].anns]),
              !.bases = [q \in DOMAIN @ |-> [@[q] EXCEPT !.t = refer(m, x.bases[q])]],
              !.ot = [q \in DOMAIN @ |-> here(m, @[q])],
              !.tgt = IF x.k = "alias" THEN target(m, x) ELSE here(m, @),
              !.params = [q \in DOMAIN @ |-> [@[q] EXCEPT !.d = text(m, @), !.tn = text(m, @), !.ty = text(m, @)]],
              !.v = text(m, @),
              !.args = IF top /\ x.k = "rec" THEN want[m].key.a ELSE IF x.k = "rec" /\ x.ref.t # 0 THEN x.ref.a ELSE <<>>,
              !.src = i,
              !.tps = <<>>, !.uses = <<>>]
      gone(i) == [P.d[i] EXCEPT !.k = "none", !.anns = <<>>, !.src = i, !.bases = <<>>, !.p = 0, !.lex = 0]
  IN [P EXCEPT !.d =
        [i \in DOMAIN P.d |-> IF P.d[i].k = "inst" \/ Dependent(P, i) THEN gone(i) ELSE decl(0, i)]
        \o FlattenSeq([m \in DOMAIN want |-> [q \in DOMAIN blocks[m] |-> decl(m, blocks[m][q])]])]
=============================================================================
