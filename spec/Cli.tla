--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* What a run derives from its command line and from the preprocessor: the *)
(* language mode, the name of the module and the included files.           *)
(*                                                                         *)
(* A case is [args, name, file, lines, outs, via, res, verbose, usage]:    *)
(* compiler arguments, the --module-name (or ""), the name of the input    *)
(* file, the relevant lines of the input (see Line), the number of output  *)
(* files (0: standard output), where the arguments come from (command line,*)
(* or the entry of a compilation database for this or a neighbouring file),*)
(* whether a resource directory is given, whether the tool reports what it *)
(* does, and in which way the command line makes no sense ("" if it does). *)
(***************************************************************************)
EXTENDS Strings, SequencesExt, Json, IOUtils

VARIABLES ci, cs,    \* case
          stage,     \* "args" -> "lines" -> "done"
          pos,       \* next argument or line
          mode,      \* [level, gnu] of the standard requested so far
          active,    \* nesting of inactive conditionals
          known,     \* files included so far, by whatever means
          recorded,  \* those to be included by the generated code
          saw,       \* for every probe, the files known at that point
          broken     \* has there been a malformed pragma?
cvars == <<ci, cs, stage, pos, mode, active, known, recorded, saw, broken>>

-----------------------------------------------------------------------------
(* Language standards *)

PlusPlus(s) == \E i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) = "++"
Level(s) ==
  IF ~PlusPlus(s) THEN "201703"
  ELSE CASE EndsWith(s, "++20") \/ EndsWith(s, "++2a") -> "202002"
         [] EndsWith(s, "++23") \/ EndsWith(s, "++2b") -> "202302"
         [] EndsWith(s, "++26") \/ EndsWith(s, "++2c") -> "202400"
         [] OTHER -> "201703"
IsStd(a) == StartsWith(a, "-std=")
StdOf(a) == SubSeq(a, 6, Len(a))

(* Module name *)
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF Chr(s, i) = "." THEN i ELSE LastDot(s, i - 1)
FileStem(f) == LET p == LastDot(f, Len(f)) IN IF p = 0 THEN f ELSE SubSeq(f, 1, p - 1)
ModuleName(c) == IF c.name # "" THEN c.name ELSE MakeIdentifier(FileStem(c.file))

-----------------------------------------------------------------------------
(* Lines: [k, f] with k one of                                             *)
(*  "pragma"  #pragma genpybind include f                                  *)
(*  "include" #include f                                                   *)
(*  "off"/"end"  #if 0 / #endif                                            *)
(*  "on"  #ifdef __GENPYBIND__                                             *)
(*  "probe"  looks at what has been included                               *)
(*  "bad"  a malformed pragma; "alien" a pragma or comment for someone else*)

CliInit(cases) ==
  /\ ci \in 1..Len(cases) /\ cs = cases[ci]
  /\ stage = "args" /\ pos = 1 /\ mode = [level |-> "201703", gnu |-> FALSE]
  /\ active = <<>> /\ known = {} /\ recorded = <<>> /\ saw = <<>> /\ broken = FALSE

Argument ==
  /\ stage = "args"
  /\ IF pos > Len(cs.args) THEN stage' = "lines" /\ pos' = 1 /\ UNCHANGED mode
     ELSE /\ UNCHANGED stage
          /\ LET a == cs.args[pos] IN
             IF IsStd(a)
             THEN mode' = [level |-> Level(StdOf(a)), gnu |-> StartsWith(StdOf(a), "gnu")] /\ pos' = pos + 1
             ELSE UNCHANGED mode /\ pos' = pos + (IF a = "-x" THEN 2 ELSE 1)
  /\ UNCHANGED <<ci, cs, active, known, recorded, saw, broken>>

Live == \A m \in DOMAIN active : active[m]
Line ==
  /\ stage = "lines"
  /\ IF pos > Len(cs.lines)
     THEN stage' = "done" /\ UNCHANGED <<pos, active, known, recorded, saw, broken>>
     ELSE LET x == cs.lines[pos] IN
          /\ pos' = pos + 1 /\ UNCHANGED stage
          /\ broken' = (broken \/ (Live /\ x.k = "bad"))
          /\ active' = CASE x.k = "off" -> Append(active, FALSE)
                         [] x.k = "on" -> Append(active, TRUE)
                         [] x.k = "end" -> SubSeq(active, 1, Len(active) - 1)
                         [] OTHER -> active
          /\ known' = IF Live /\ x.k \in {"pragma", "include"} THEN known \cup {x.f} ELSE known
          /\ recorded' = IF Live /\ x.k = "pragma" THEN Append(recorded, x.f) ELSE recorded
          /\ saw' = IF Live /\ x.k = "probe" THEN saw \o [m \in 1..Cardinality(known) |-> <<pos, SetToSeq(known)[m]>>] ELSE saw
  /\ UNCHANGED <<ci, cs, mode>>

CliNext == Argument \/ Line

CliLemmas ==
  /\ mode.level \in {"201703", "202002", "202302", "202400"}
  /\ \A m \in DOMAIN recorded : recorded[m] \in known
  /\ (stage = "done" /\ FileStem(cs.file) # "") => ValidIdentifier(ModuleName(cs))

-----------------------------------------------------------------------------
(* Observations: [level, gnu, cpp, def, name, includes, main, saw]          *)

VARIABLE obs
Pairs == ndJsonDeserialize(IOEnv.VF_PAIRS)
TraceInit == \E ps \in {Pairs} : CliInit([m \in DOMAIN ps |-> ps[m].c]) /\ obs = ps[ci].obs

Refused == broken \/ cs.usage # ""
Complaint ==
  CASE obs.left # <<>> -> "wrote " \o ToString(obs.left)
    [] Refused -> IF obs.code = 0 THEN "the run succeeded" ELSE ""
    [] obs.res # cs.res -> "the resource directory was " \o (IF obs.res THEN "used" ELSE "ignored")
    [] obs.code # 0 -> "the run failed: " \o obs.why
    [] ~obs.cpp \/ ~obs.def -> "not parsed as C++ with __GENPYBIND__"
    [] obs.level # mode.level \/ obs.gnu # mode.gnu ->
         "parsed as " \o ToString(<<obs.level, obs.gnu>>) \o ", expected " \o ToString(mode)
    [] \E m \in DOMAIN obs.names : obs.names[m] # (IF m = 1 THEN ModuleName(cs) ELSE "") ->
         "module named " \o ToString(obs.names) \o ", expected " \o ModuleName(cs)
    [] Len(obs.names) # (IF cs.outs = 0 THEN 1 ELSE cs.outs) \/ \E m \in DOMAIN obs.includes : obs.includes[m] # <<"input">> \o recorded ->
         "included " \o ToString(obs.includes) \o ", expected " \o ToString(<<"input">> \o recorded)
    [] ToSet(obs.saw) # ToSet(saw) -> "seen while parsing " \o ToString(obs.saw) \o ", expected " \o ToString(saw)
    [] OTHER -> ""
Verdict ==
  /\ stage = "done" /\ stage' = "judged"
  /\ PrintT("VF|" \o ToString(ci) \o (IF Complaint = "" THEN "|ok|" ELSE "|no|") \o Complaint)
  /\ UNCHANGED <<ci, cs, pos, mode, active, known, recorded, saw, broken, obs>>
TraceNext == Verdict \/ (CliNext /\ UNCHANGED obs)
=============================================================================
