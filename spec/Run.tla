--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* One run of the tool on a header followed by the import of the module it *)
(* generates, as a state machine.  A run passes through the stages         *)
(*   load -> parse -> relocate -> derive -> prune -> sort -> introduce ->  *)
(*   define -> postamble -> done                                           *)
(* and may fail in several of them.  `events` are the registrations.       *)
(***************************************************************************)
EXTENDS Genpybind

CONSTANT Programs

VARIABLES
  pi,       \* index of the program
  pc,       \* stage
  S,        \* everything derived about the program so far
  k,        \* position in the order of scopes (introduce, define)
  groups,   \* registrations of the current scope still to be performed
  events,   \* registrations performed
  diags,    \* [err, warn: declarations diagnosed]
  output    \* "none": nothing generated, "open": being generated, "final"

vars == <<pi, pc, S, k, groups, events, diags, output>>

P == S.P

S0(p) == [P |-> p, ctx |-> Ctx(p), at |-> AllAttrs(p),
  moved |-> [i \in Ix(p) |-> 0], gpar |-> [i \in Ix(p) |-> 0],
  vis |-> <<>>, with |-> {}, kept |-> {}, order |-> <<>>, rep |-> <<>>, paths |-> <<>>, outer |-> <<>>]

InitWith(ps) ==
  /\ pi \in 1..Len(ps)
  /\ pc = "load"
  /\ S = [P |-> ps[pi]]
  /\ k = 0 /\ groups = <<>> /\ events = <<>>
  /\ diags = [err |-> {}, warn |-> <<>>]
  /\ output = "none"
Init == InitWith(Programs)

Fail(err) ==
  /\ pc' = "failed"
  /\ diags' = [diags EXCEPT !.err = @ \cup err]
  /\ output' = "none"

Warn(js) == js \* a bag of declarations, kept as a sorted sequence

LoadStage ==
  /\ pc = "load"
  /\ pc' = "parse" /\ S' = S0(Load(P))
  /\ UNCHANGED <<pi, k, groups, events, diags, output>>

ParseStage ==
  /\ pc = "parse"
  /\ LET errs == AnnotationErrors(P, S.at)
         ws == FlattenSeq([i \in Ix(P) |-> [m \in 1..S.at[i].warn |-> i]])
     IN IF errs # {}
        THEN /\ pc' = "failed" /\ output' = "none"
             /\ diags' = [err |-> errs, warn |-> ws]
        ELSE /\ pc' = "relocate" /\ diags' = [diags EXCEPT !.warn = ws] /\ UNCHANGED output
  /\ UNCHANGED <<pi, S, k, groups, events>>

RelocateStage ==
  /\ pc = "relocate"
  /\ LET r == Relocate(P, S.at) IN
     IF r.err # {} THEN Fail(r.err) /\ UNCHANGED S
     ELSE /\ pc' = "derive"
          /\ S' = [S EXCEPT !.at = r.at, !.moved = r.moved, !.gpar = GraphParents(P, S.ctx, r.moved)]
          /\ UNCHANGED <<diags, output>>
  /\ UNCHANGED <<pi, k, groups, events>>

DeriveStage ==
  /\ pc = "derive"
  /\ LET lost == Unreachable(P, S.gpar) IN
     IF lost # {} THEN Fail({S.moved[i] : i \in lost} \ {0}) /\ UNCHANGED S
     ELSE /\ pc' = "prune"
          /\ LET v == Visibility(P, S.at, S.gpar)
             IN S' = [S EXCEPT !.vis = v, !.with = ContextsWithVisible(P, S.ctx, S.at, S.gpar, v)]
          /\ UNCHANGED <<diags, output>>
  /\ UNCHANGED <<pi, k, groups, events>>

PruneStage ==
  /\ pc = "prune"
  /\ LET foreign == ForeignContexts(P, S.at, S.gpar)
         v == [n \in DOMAIN S.vis |-> S.vis[n] /\ (n - 1) \notin foreign]
         with == S.with \ foreign
         kept == KeptContexts(P, S.gpar, v, with)
     IN /\ S' = [S EXCEPT !.vis = v, !.with = with, !.kept = kept]
        /\ diags' = [diags EXCEPT !.warn = @ \o SetToSortSeq(LostContexts(S.moved, with, kept), <)]
  /\ pc' = "sort"
  /\ UNCHANGED <<pi, k, groups, events, output>>

SortStage ==
  /\ pc = "sort"
  /\ LET scopes == S.kept \cup {0}
         order == SortContexts(P, S.at, S.gpar, scopes)
     IN IF Len(order) # Cardinality(scopes)
        THEN /\ Fail({0}) /\ UNCHANGED S
        ELSE /\ pc' = "introduce" /\ output' = "open" /\ UNCHANGED diags
             /\ LET ks == 1..(Len(P.d) + 1)
                    rep == [n \in ks |-> IF n - 1 \in S.kept THEN RepOf(P, S.at, order, n - 1) ELSE n - 1]
                IN S' = [S EXCEPT !.order = order, !.rep = rep,
                     !.paths = [n \in ks |-> IF n - 1 \in S.kept
                                  THEN PathOf(P, S.at, S.gpar, order, n - 1) ELSE ""],
                     !.outer = [n \in ks |-> IF n - 1 \in S.kept \ {0}
                                  THEN PathOf(P, S.at, S.gpar, order, S.gpar[rep[n]]) ELSE ""]]
  /\ k' = 1
  /\ UNCHANGED <<pi, groups, events>>

\* Perform one registration of the first pending group, if there is any.
Pending == groups # <<>>
Perform(e) ==
  /\ events' = Append(events, e)
  /\ groups' = LET rest == Remove(groups[1], e) IN
               IF rest = <<>> THEN Tail(groups) ELSE <<rest>> \o Tail(groups)

IntroduceStage ==
  /\ pc = "introduce" /\ ~Pending
  /\ IF k > Len(S.order)
     THEN pc' = "define" /\ k' = 1 /\ UNCHANGED groups
     ELSE /\ k' = k + 1 /\ UNCHANGED pc
          /\ groups' = IF IsFirstPart(P, S.order, k)
                       THEN LET es == IntroduceEvents(S, S.order[k]) IN [m \in DOMAIN es |-> <<es[m]>>]
                       ELSE <<>>
  /\ UNCHANGED <<pi, S, events, diags, output>>

DefineStage ==
  /\ pc = "define" /\ ~Pending
  /\ IF k > Len(S.order)
     THEN /\ UNCHANGED <<k, diags>>
          /\ IF diags.err # {} THEN pc' = "failed" /\ output' = "none" /\ groups' = <<>>
             ELSE /\ pc' = "postamble" /\ UNCHANGED output
                  /\ LET es == PostambleEvents(S) IN groups' = [m \in DOMAIN es |-> <<es[m]>>]
     ELSE /\ k' = k + 1 /\ UNCHANGED <<pc, output>>
          /\ IF IsFirstPart(P, S.order, k)
             THEN /\ groups' = IF DefineErrors(S, S.order[k]) = {} THEN DefineGroups(S, S.order[k]) ELSE <<>>
                  /\ diags' = [diags EXCEPT !.err = @ \cup DefineErrors(S, S.order[k])]
             ELSE groups' = <<>> /\ UNCHANGED diags
  /\ UNCHANGED <<pi, S, events>>

PostambleStage ==
  /\ pc = "postamble" /\ ~Pending
  /\ pc' = "done" /\ output' = "final"
  /\ UNCHANGED <<pi, S, k, groups, events, diags>>

PerformSome ==
  /\ Pending
  /\ \E m \in DOMAIN groups[1] : Perform(groups[1][m])
  /\ UNCHANGED <<pi, pc, S, k, diags, output>>

Stages == LoadStage \/ ParseStage \/ RelocateStage \/ DeriveStage \/ PruneStage \/ SortStage
          \/ IntroduceStage \/ DefineStage \/ PostambleStage
Next == Stages \/ PerformSome
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties of the specification itself, stated independently of the     *)
(* stages above.                                                           *)

Finished == pc \in {"done", "failed"}
Terminates == <>Finished

Introducers == {"class", "enum", "module"}
Objects(es) == {"" } \cup {es[m].c \o "." \o es[m].n : m \in {x \in DOMAIN es : es[x].e \in Introducers}}

\* C08: a failed run generates nothing and names at least one culprit.
FailedMeansNothing == (pc = "failed") => output = "none" /\ diags.err # {}
DoneMeansNoError == (pc = "done") => output = "final" /\ diags.err = {}

\* C04: scopes exist before their content, all scopes before any member.
ScopesFirst ==
  \A m \in DOMAIN events :
    /\ events[m].e # "implicit" => events[m].c \in Objects(SubSeq(events, 1, m - 1))
    /\ events[m].e \in Introducers => \A q \in 1..(m-1) : events[q].e \in Introducers
BasesFirst ==
  \A m \in DOMAIN events : events[m].e = "class" =>
    \A b \in Range(events[m].bases) : \E q \in 1..(m-1) : events[q].e = "class" /\ events[q].d = b

\* C01/C03: every class and enum is registered at most once.
OnceEach ==
  \A m, q \in DOMAIN events :
    (events[m].e \in {"class", "enum"} /\ events[m].e = events[q].e /\ events[m].d = events[q].d) => m = q

\* C01: nothing that is hidden itself or nested in something hidden is registered.
RECURSIVE Concealed(_)
Concealed(i) ==
  i # 0 /\ ((IsTag(P, i) /\ ~VisOf(P, S.at, S.gpar, i)) \/ Concealed(S.gpar[i]))
HiddenStaysHidden ==
  \A m \in DOMAIN events :
    /\ events[m].e \in {"class", "enum"} => ~Concealed(events[m].d)
    /\ (events[m].e \in {"def", "def_static", "init"} /\ events[m].d > 0) => S.at[events[m].d].vis # "F"

\* C01: whatever is visible and not concealed is registered.
VisibleGetsRegistered ==
  (pc = "done") =>
    \A i \in Nodes(P) :
      (IsTag(P, i) /\ ~Concealed(i) /\ ~Foreign(P, S.at, S.gpar, i))
        => \E m \in DOMAIN events : events[m].e \in {"class", "enum"} /\ events[m].d = i

\* C05: nothing from namespaces of other modules is registered.
NothingForeign ==
  \A m \in DOMAIN events :
    events[m].e \in {"class", "enum"} => ~Foreign(P, S.at, S.gpar, events[m].d)

\* C03: moved classes are registered in the scope of their alias.
MovedToAlias ==
  \A m \in DOMAIN events : (events[m].e \in {"class", "enum"} /\ S.moved[events[m].d] # 0) =>
    LET a == S.moved[events[m].d] IN
    /\ events[m].c = PathOf(P, S.at, S.gpar, S.order, S.ctx[a])
    /\ events[m].n = Spelling(P, S.at, a)

\* C15: a namespace yields at most one submodule.
OneModulePerNamespace ==
  (pc = "done") =>
    Cardinality({m \in DOMAIN events : events[m].e = "module"})
      <= Cardinality({P.d[i].canon : i \in {j \in Ix(P) : P.d[j].k = "ns" /\ S.at[j].module}})

\* C12: properties are never methods as well.
PropertiesAreNoMethods ==
  \A m \in DOMAIN events : (events[m].e \in {"def", "def_static"} /\ events[m].d > 0) => ~HasProperty(S.at, events[m].d)

\* C14: non-public bases are never registered as bases.
OnlyPublicBases ==
  \A m \in DOMAIN events : events[m].e = "class" =>
    \A b \in Range(events[m].bases) : b \in S.kept /\ b \in AllBases(P, events[m].d)

\* C06: the meaning of a text does not depend on how it is written.
TextsAreCanonical == \A i \in Ix(P) : \A m \in DOMAIN P.d[i].raw : Canonical(P.d[i].raw[m])

TypeOK ==
  /\ pc \in {"load", "parse", "relocate", "derive", "prune", "sort", "introduce", "define", "postamble", "done", "failed"}
  /\ output \in {"none", "open", "final"}
=============================================================================
