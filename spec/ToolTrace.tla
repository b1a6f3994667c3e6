------------------------------ MODULE ToolTrace ------------------------------
(***************************************************************************)
(* Scenarios for the real tool, and whether what was observed is an end of *)
(* one of the behaviours of Tool.                                          *)
(***************************************************************************)
EXTENDS Tool, Json, IOUtils, SequencesExt, FiniteSetsExt

VARIABLE obs   \* [fs, extra: number of unexpected files, err, code]

\* All scenarios; written to a file by the first run.
Outs == UNION {[1..m -> Kinds] : m \in 1..3}
AllScenarios(dummy) ==
  SetToSeq({[fault |-> f, keep |-> kp, xfail |-> x, outs |-> o] : f \in Faults, kp \in BOOLEAN, x \in BOOLEAN, o \in Outs})

Pairs == ndJsonDeserialize(IOEnv.VF_PAIRS)

GenerateInit ==
  \E all \in {AllScenarios(0)} :
    /\ ndJsonSerialize(IOEnv.VF_OUT, all)
    /\ ToolInit(all) /\ obs = <<>>
GenerateSpec == GenerateInit /\ [][ToolNext /\ UNCHANGED obs]_<<tvars, obs>> /\ WF_tvars(ToolNext)

TraceInit ==
  \E ps \in {Pairs} :
    /\ ToolInit([m \in DOMAIN ps |-> ps[m].sc])
    /\ obs = ps[si].obs
Fits == /\ obs.fs = fs /\ obs.extra = Cardinality(tmp) /\ obs.err = err
        /\ IF Aborted THEN obs.code # 0 ELSE obs.code = code
Verdict ==
  /\ Over /\ at' = "judged"
  /\ IF Fits THEN PrintT("VF|" \o ToString(si) \o "|ok|")
     ELSE PrintT("VF|" \o ToString(si) \o "|no|expected e.g. " \o ToString([fs |-> fs, err |-> err, code |-> code])
                 \o ", observed " \o ToString(obs))
  /\ UNCHANGED <<si, sc, fs, tmp, opened, done, err, code, obs>>
TraceNext == Verdict \/ (ToolNext /\ UNCHANGED obs)

ToolLemmas == StatusTellsErrors /\ NothingLeftBehind /\ EverythingThere /\ NeverPartial /\ ErrorsHaveCauses
=============================================================================
