-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: every observation of the real tool (exit status,           *)
(* diagnostics, registrations performed by the generated module) has to be *)
(* a behaviour of Run, as far as the view belonging to one property goes.  *)
(* Programs and observations are read from two files, one per line.        *)
(***************************************************************************)
EXTENDS Run, Json, IOUtils, TLC

VARIABLES obs,     \* the observation
          seen,    \* projections of the registrations observed
          l,       \* position in `seen`
          verdict  \* "" until the observation is accepted or rejected

CONSTANTS Observations, View
LoadPrograms == ndJsonDeserialize(IOEnv.VF_PROGRAMS)
LoadObservations == ndJsonDeserialize(IOEnv.VF_OBSERVATIONS)
LoadView == IOEnv.VF_VIEW

-----------------------------------------------------------------------------
(* Views *)

Skip == [skip |-> TRUE]
Callables == {"def", "def_static", "init"}
Fields == {"readwrite", "readonly", "readwrite_static", "readonly_static"}
Named == {"class", "enum", "module", "def", "def_static", "init", "attr", "alias", "value", "property", "export"} \cup Fields
\* A registration identified independently of its place and name.
Identity(x) ==
  CASE x.e \in {"class", "enum"} -> [e |-> x.e, d |-> x.d]
    [] x.e \in Callables -> [e |-> x.e, d |-> x.d]
    [] x.e = "property" -> [e |-> x.e, d |-> x.d]
    [] x.e = "manual" -> [e |-> x.e, d |-> x.d]
    [] x.e \in Fields -> [e |-> "member", v |-> x.v]
    [] x.e \in {"value", "attr"} -> [e |-> x.e, v |-> x.v]
    [] x.e \in {"alias", "module"} -> [e |-> x.e, n |-> x.n]
    [] OTHER -> [e |-> x.e]
Placed(x) == [id |-> Identity(x), c |-> x.c, n |-> x.n]
ArgNames(x) == [m \in DOMAIN x.args |-> [n |-> x.args[m].n, d |-> x.args[m].d]]
ArgPolicies(x) == [m \in DOMAIN x.args |-> [n |-> x.args[m].n, nc |-> x.args[m].nc, req |-> x.args[m].req]]
IsOpEvent(x) == "is_operator" \in x.flags

Project(x) ==
  CASE View = "C01" ->
         IF x.e \in {"module", "export", "implicit", "property"} \/ (x.e = "init" /\ x.d = 0) THEN Skip
         ELSE Identity(x)
    [] View = "C02" -> IF x.e \in Named \ {"export"} THEN Placed(x) ELSE Skip
    [] View = "C03" ->
         IF x.e = "alias" THEN [e |-> "alias", c |-> x.c, n |-> x.n, v |-> x.v]
         ELSE IF x.e \in {"class", "enum", "def", "def_static", "attr", "value", "duplicate"} \cup Fields THEN Placed(x) ELSE Skip
    [] View = "C04" -> IF x.e \in Named \cup {"manual"} THEN [Placed(x) EXCEPT !.c = IF x.e = "manual" THEN "" ELSE @]
                       ELSE IF x.e = "implicit" THEN [e |-> x.e, d |-> x.d] ELSE Skip
    [] View \in {"C05", "C15"} ->
         IF x.e = "manual" THEN Identity(x) ELSE IF x.e \in Named \cup {"duplicate"} THEN Placed(x) ELSE Skip
    [] View = "C10" -> IF x.e \in Callables /\ ~IsOpEvent(x)
                       THEN [e |-> x.e, c |-> x.c, n |-> x.n, d |-> x.d, args |-> ArgNames(x), doc |-> x.doc] ELSE Skip
    [] View = "C11" -> IF x.e \in Callables /\ ~IsOpEvent(x)
                       THEN [e |-> x.e, c |-> x.c, d |-> x.d, args |-> ArgPolicies(x), pol |-> x.pol, keep |-> x.keep]
                       ELSE IF x.e = "implicit" THEN [e |-> x.e, d |-> x.d, v |-> x.v] ELSE Skip
    [] View = "C12" -> IF x.e = "property" THEN [e |-> x.e, c |-> x.c, n |-> x.n, d |-> x.d, set |-> x.set]
                       ELSE IF x.e \in {"def", "def_static"} THEN [e |-> x.e, c |-> x.c, d |-> x.d] ELSE Skip
    [] View = "C13" -> IF x.e = "def" /\ (IsOpEvent(x) \/ StartsWith(x.n, "__"))
                       THEN [c |-> x.c, n |-> x.n, d |-> x.d, ops |-> x.ops, flags |-> x.flags]
                       ELSE IF x.e \in {"def", "def_static"} THEN Placed(x) ELSE Skip
    [] View = "C14" -> IF x.e = "class" THEN [d |-> x.d, bases |-> x.bases]
                       ELSE IF x.e = "duplicate" THEN [e |-> x.e]
                       ELSE IF x.e = "manual" THEN Identity(x)
                       ELSE IF x.e \in (Callables \ {"init"}) \cup Fields \cup {"property"} THEN [Placed(x) EXCEPT !.n = ""]
                       ELSE Skip
    [] View = "C16" -> IF x.e = "manual" THEN Identity(x)
                       ELSE IF x.e \in {"class", "enum"} THEN [e |-> x.e, c |-> x.c, n |-> x.n, v |-> x.v, bt |-> x.bt]
                       ELSE IF x.e = "alias" THEN [e |-> x.e, c |-> x.c, n |-> x.n, v |-> x.v]
                       ELSE IF x.e \in Callables THEN [e |-> x.e, c |-> x.c, n |-> x.n, d |-> x.d, args |-> ArgNames(x)]
                       ELSE IF x.e = "property" THEN [e |-> x.e, c |-> x.c, n |-> x.n, d |-> x.d, set |-> x.set]
                       ELSE IF x.e \in Named \cup {"duplicate"} THEN Placed(x) ELSE Skip
    [] View = "C17" -> IF x.e \in {"enum", "value", "export"}
                       THEN [e |-> x.e, c |-> x.c, n |-> x.n, v |-> x.v, doc |-> x.doc, flags |-> x.flags] ELSE Skip
    [] View = "C18" -> IF x.e \in Fields \cup {"attr"} THEN [e |-> x.e, c |-> x.c, n |-> x.n, v |-> x.v] ELSE Skip
    [] View = "C19" -> IF x.e = "manual" THEN [e |-> x.e, d |-> x.d]
                       ELSE IF x.e \in Named \ {"init"} THEN [Placed(x) EXCEPT !.n = ""] ELSE Skip
    [] View = "C23" -> IF x.e = "class" THEN [d |-> x.d, doc |-> x.doc, opts |-> x.opts, flags |-> x.flags] ELSE Skip
    [] View \in {"C07", "C08", "C21", "C22", "C24"} -> Skip
    [] OTHER -> [e |-> x.e, c |-> IF x.e = "manual" THEN "" ELSE x.c, n |-> x.n, d |-> x.d, v |-> x.v,
                 args |-> x.args, doc |-> x.doc, pol |-> x.pol, keep |-> x.keep, bases |-> x.bases, bt |-> x.bt, ops |-> x.ops,
                 flags |-> x.flags, set |-> x.set, opts |-> x.opts]

\* Instantiations happen at a place of the compiler's choice.
Templated == pc # "load" /\ \E i \in Ix(P) : P.d[i].k = "tmpl"
\* The scope of manual bindings is compared separately, as it is not always observable.
Ordered == ~Templated /\ View \in {"C04", "C09", "C10", "C17", "C19", "ALL"}
SpeaksOfErrors == View \in {"C03", "C24", "C04", "C16", "C06", "C07", "C08", "C11", "C12", "C15", "ALL"}
ComparesErrors == View \in {"C03", "C06", "C07", "C11", "C12", "C15", "ALL"}
SpeaksOfWarnings == View \in {"C05", "C22", "ALL"}

Obs == obs
ObsEvent(x) == [x EXCEPT !.flags = Range(x.flags)]
AllSeen == SelectSeq([m \in DOMAIN Obs.events |-> Project(ObsEvent(Obs.events[m]))], LAMBDA y : y # Skip)
\* A member of a specialization is known by the declaration in the template.
Src(i) == IF i > 0 /\ P.d[i].src # 0 THEN P.d[i].src ELSE i
Sourced(x) == [x EXCEPT !.d = Src(@), !.set = Src(@), !.bases = [m \in DOMAIN @ |-> Src(@[m])]]
Expect(x) == Project(Sourced(x))
Expected == SelectSeq([m \in DOMAIN events |-> Expect(events[m])], LAMBDA y : y # Skip)
Manuals(es) == SelectSeq(es, LAMBDA x : x.e = "manual")

Count(seq, x) == Cardinality({m \in DOMAIN seq : seq[m] = x})
Missing(expected) == {y \in Range(expected) : Count(seen, y) < Count(expected, y)}
Surplus(expected) == {y \in Range(seen) : Count(seen, y) > Count(expected, y)}
Differs == LET x == Expected IN
           IF seen = x THEN "" ELSE
           LET m == Missing(x)  s == Surplus(x) IN
           IF m = {} /\ s = {} THEN "" ELSE "missing " \o ToString(m) \o " surplus " \o ToString(s)
WrongScope ==
  {j \in Ix(P) : \E m \in DOMAIN Obs.events, q \in DOMAIN events :
     /\ Obs.events[m].e = "manual" /\ events[q].e = "manual"
     /\ Obs.events[m].d = j /\ events[q].d = j
     /\ Obs.events[m].c # "*" /\ Obs.events[m].c # events[q].c
     /\ ~\E r \in DOMAIN events : events[r].e = "manual" /\ events[r].d = j /\ events[r].c = Obs.events[m].c}

\* C09: the files the pieces of code came from, in the order they were executed.
EvenlySplit(pieces, n) ==
  /\ \A m \in 1..(Len(pieces) - 1) : pieces[m] <= pieces[m + 1]
  /\ \A f \in 1..n : LET count == Cardinality({m \in DOMAIN pieces : pieces[m] = f}) IN
                     count * n < Len(pieces) + n /\ count * n > Len(pieces) - n

-----------------------------------------------------------------------------

Say(v, why) == PrintT("VF|" \o ToString(pi) \o "|" \o v \o "|" \o why)

Accept(why) == verdict' = "ok" /\ Say("ok", why)
Reject(why) == verdict' = "reject" /\ Say("reject", why)

\* The bound variables make TLC read the files only once.
TraceInit == \E ps \in {Programs}, os \in {Observations} :
               InitWith(ps) /\ obs = os[pi] /\ seen = <<>> /\ l = 1 /\ verdict = ""

\* The next registration of the model is one the view does not look at, or the next one observed.
Blind == {m \in DOMAIN groups[1] : Expect(groups[1][m]) = Skip}
Fitting == {m \in DOMAIN groups[1] : l <= Len(seen) /\ Expect(groups[1][m]) = seen[l]}
TracePerform ==
  /\ Pending
  /\ UNCHANGED <<pi, pc, S, k, diags, output, obs, seen>>
  /\ IF Obs.exit # 0 \/ Obs.built # "yes"
     THEN Perform(groups[1][1]) /\ UNCHANGED <<l, verdict>>
     ELSE IF ~Ordered THEN Perform(groups[1][1]) /\ UNCHANGED <<l, verdict>>
     ELSE IF Blind # {} THEN Perform(groups[1][Min(Blind)]) /\ UNCHANGED <<l, verdict>>
     ELSE IF Fitting # {} THEN Perform(groups[1][Min(Fitting)]) /\ l' = l + 1 /\ UNCHANGED verdict
     ELSE /\ UNCHANGED <<groups, events, l>>
          /\ Reject("expected one of " \o ToString({Expect(groups[1][m]) : m \in DOMAIN groups[1]})
                    \o " but observed " \o (IF l > Len(seen) THEN "nothing more" ELSE ToString(seen[l])))

\* C24: the graphs that are printed before and after pruning.
Printed(g) == Obs.graphs[g]
Bag(g) == [m \in DOMAIN g |-> <<g[m].n, g[m].up, g[m].as, g[m].vis>>]
GraphDiffers(stage, nodes) ==
  LET x == Bag(ScopeGraph(P, S.ctx, S.at, S.gpar, S.vis, nodes))
      o == Bag(Printed(stage))
      wrong == {y \in Range(x) \cup Range(o) : Count(x, y) # Count(o, y)}
  IN IF wrong = {} THEN "" ELSE stage \o ": expected " \o ToString(wrong \cap Range(x)) \o ", printed " \o ToString(wrong \cap Range(o))
GraphComplaint ==
  IF View # "C24" THEN ""
  ELSE IF pc = "prune" THEN GraphDiffers("visibility", Nodes(P))
  ELSE IF pc = "sort" THEN GraphDiffers("pruned", S.kept \ {0})
  ELSE ""

TraceStage ==
  /\ GraphComplaint = ""
  /\ Stages
  /\ seen' = IF pc = "load" THEN AllSeen ELSE seen
  /\ UNCHANGED <<obs, l, verdict>>

SameErrors ==
  IF 0 \in diags.err THEN Obs.errs # <<>> ELSE {Src(i) : i \in diags.err} = Range(Obs.errs)
SortedWarnings == SortSeq([m \in DOMAIN diags.warn |-> Src(diags.warn[m])], <)

\* Bases are registered before the classes derived from them.
BaseTooLate ==
  {m \in DOMAIN Obs.events : Obs.events[m].e = "class" /\
     \E b \in Range(Obs.events[m].bt) :
       /\ \E q \in DOMAIN Obs.events : Obs.events[q].e = "class" /\ Obs.events[q].v = b
       /\ ~\E q \in 1..(m - 1) : Obs.events[q].e = "class" /\ Obs.events[q].v = b}

TraceGraph ==
  /\ ~Pending /\ GraphComplaint # ""
  /\ UNCHANGED <<vars, obs, seen, l>>
  /\ Reject(GraphComplaint)

TraceFinish ==
  /\ Finished
  /\ UNCHANGED <<vars, obs, seen, l>>
  /\ CASE View \in {"C04", "C24"} /\ Cardinality(Range(Obs.prints)) > 1 ->
            Reject("runs on the same input differ: " \o ToString(Obs.prints))
       [] pc = "failed" /\ ~SpeaksOfErrors -> Accept("error")
       [] pc = "failed" /\ Obs.exit = 0 ->
            Reject("no error reported, expected one at " \o ToString(diags.err))
       [] pc = "failed" /\ Obs.exit # 1 -> Reject("tool terminated abnormally: " \o Obs.why)
       [] pc = "failed" /\ ComparesErrors /\ ~SameErrors ->
            Reject("errors at " \o ToString(Range(Obs.errs)) \o ", expected " \o ToString(diags.err))
       [] pc = "failed" /\ View = "C22" /\ Obs.warns # SortedWarnings ->
            Reject("warnings at " \o ToString(Obs.warns) \o ", expected " \o ToString(SortedWarnings))
       [] pc = "failed" -> Accept("error")
       [] Obs.exit # 0 -> Reject("unexpected failure: " \o Obs.why)
       [] Obs.built = "failed" -> Reject("generated code is unusable: " \o Obs.why)
       [] SpeaksOfWarnings /\ Obs.warns # SortedWarnings ->
            Reject("warnings at " \o ToString(Obs.warns) \o ", expected " \o ToString(SortedWarnings))
       [] Obs.built = "no" -> Accept("diagnostics")
       [] Differs # "" -> Reject(Differs)
       [] View \in {"C04", "C16"} /\ BaseTooLate # {} ->
            Reject("base registered after derived class: " \o ToString({Obs.events[m].v : m \in BaseTooLate}))
       [] Ordered /\ l # Len(seen) + 1 -> Reject("surplus " \o ToString(seen[l]))
       [] View \in {"C05", "C19", "C04", "C15", "ALL"} /\ WrongScope # {} ->
            Reject("manual bindings with wrong parent " \o ToString(WrongScope))
       [] View = "C09" /\ ~EvenlySplit(Obs.pieces, Obs.nfiles) ->
            Reject("code is not spread evenly over " \o ToString(Obs.nfiles) \o " files: " \o ToString(Obs.pieces))
       [] OTHER -> Accept(ToString(Len(seen)))

\* The properties of Run are checked once per program, when it is decided.
Decided == verdict # ""
Holds(name, p) == p \/ (PrintT("LEMMA|" \o ToString(pi) \o "|" \o name) /\ FALSE)
Lemmas ==
  Decided => /\ Holds("TypeOK", TypeOK)
             /\ Holds("TextsAreCanonical", TextsAreCanonical)
             /\ Holds("FailedMeansNothing", FailedMeansNothing)
             /\ Holds("DoneMeansNoError", DoneMeansNoError)
             /\ Holds("ScopesFirst", ScopesFirst)
             /\ Holds("BasesFirst", BasesFirst)
             /\ Holds("OnceEach", OnceEach)
             /\ Holds("HiddenStaysHidden", HiddenStaysHidden)
             /\ Holds("VisibleGetsRegistered", VisibleGetsRegistered)
             /\ Holds("NothingForeign", NothingForeign)
             /\ Holds("MovedToAlias", MovedToAlias)
             /\ Holds("OneModulePerNamespace", OneModulePerNamespace)
             /\ Holds("PropertiesAreNoMethods", PropertiesAreNoMethods)
             /\ Holds("OnlyPublicBases", OnlyPublicBases)

TraceNext == verdict = "" /\ (TracePerform \/ TraceStage \/ TraceGraph \/ TraceFinish)
\* A trace is deterministic: where it stands identifies the state.
Fingerprint == <<pi, pc, k, Len(groups), Len(events), l, verdict>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, obs, seen, l, verdict>>
=============================================================================
