-------------------------------- MODULE Tool ---------------------------------
(***************************************************************************)
(* A run of the tool as seen from the file system: the output files are    *)
(* opened one after the other once the input has been understood, written  *)
(* to temporary files, and put in place at the end unless there was an     *)
(* error.  A scenario says what is wrong with the input or environment:    *)
(*  [fault, keep, xfail, outs]                                             *)
(* fault: when (if at all) something goes wrong                            *)
(* outs: for each output path, what is there at the beginning              *)
(*  "new" nothing, "old" a file, "link" a link to a file,                  *)
(*  "nodir" not even a directory, "dir" a directory                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Scenarios

VARIABLES
  si, sc,   \* scenario
  at,       \* stage
  fs,       \* content of the paths: "absent", "old", "part" (something new but incomplete), "new"
  tmp,      \* paths for which there is a temporary file
  opened,   \* number of paths opened
  done,     \* number of paths dealt with at the end
  err,      \* has an error been reported?
  code      \* exit status (-1 while running)
tvars == <<si, sc, at, fs, tmp, opened, done, err, code>>

Faults == {"none", "warning", "usage", "input", "compile", "early", "late", "write"}
Usable == {"new", "old", "link"}
Kinds == Usable \cup {"nodir", "dir"}
Initially(kd) == CASE kd \in {"old", "link"} -> "old" [] kd = "dir" -> "dir" [] OTHER -> "absent"

ToolInit(scs) ==
  /\ si \in 1..Len(scs) /\ sc = scs[si]
  /\ at = "start" /\ fs = [i \in DOMAIN sc.outs |-> Initially(sc.outs[i])]
  /\ tmp = {} /\ opened = 0 /\ done = 0 /\ err = FALSE /\ code = -1

\* Exit status of a run that got to its end.
Status(e) == IF e = sc.xfail THEN 0 ELSE 1

Start ==
  /\ at = "start"
  /\ IF sc.fault = "usage" THEN err' = TRUE /\ code' = 1 /\ at' = "end"    \* --xfail does not apply
     ELSE IF sc.fault = "input" THEN err' = TRUE /\ code' = Status(TRUE) /\ at' = "end"
     ELSE at' = "understand" /\ UNCHANGED <<err, code>>
  /\ UNCHANGED <<si, sc, fs, tmp, opened, done>>

\* After compiler errors, generation may be attempted nevertheless.
Understand ==
  /\ at = "understand"
  /\ \/ /\ sc.fault \in {"compile", "early"}
        /\ err' = TRUE /\ at' = "close"
     \/ /\ sc.fault = "compile"
        /\ err' = TRUE /\ at' = "open"
     \/ /\ sc.fault \notin {"compile", "early"}
        /\ at' = "open" /\ UNCHANGED err
  /\ UNCHANGED <<si, sc, fs, tmp, opened, done, code>>

Open ==
  /\ at = "open" /\ opened < Len(sc.outs)
  /\ IF sc.outs[opened + 1] \in Usable
     THEN /\ opened' = opened + 1 /\ tmp' = tmp \cup {opened + 1}
          /\ UNCHANGED <<at, err>>
     ELSE err' = TRUE /\ at' = "close" /\ UNCHANGED <<opened, tmp>>
  /\ UNCHANGED <<si, sc, fs, done, code>>

Generate ==
  /\ at = "open" /\ opened = Len(sc.outs)
  /\ IF sc.fault = "write"
     THEN /\ err' = TRUE /\ tmp' = {} /\ code' = 1 /\ at' = "end"
     ELSE /\ err' = (err \/ sc.fault = "late") /\ at' = "close" /\ UNCHANGED <<tmp, code>>
  /\ UNCHANGED <<si, sc, fs, opened, done>>

\* One path at a time: put the file in place or remove what is there.
Close ==
  /\ at = "close" /\ done < opened
  /\ done' = done + 1 /\ tmp' = tmp \ {done + 1}
  /\ IF err /\ ~sc.keep
     THEN fs' = [fs EXCEPT ![done + 1] = "absent"] \/ UNCHANGED fs
     ELSE \/ fs' = [fs EXCEPT ![done + 1] = IF err THEN "part" ELSE "new"]
          \/ err /\ fs' = [fs EXCEPT ![done + 1] = "new"]
          \/ err /\ UNCHANGED fs
  /\ UNCHANGED <<si, sc, at, opened, err, code>>

Finish ==
  /\ at = "close" /\ done = opened
  /\ at' = "end" /\ code' = Status(err)
  /\ UNCHANGED <<si, sc, fs, tmp, opened, done, err>>

ToolNext == Start \/ Understand \/ Open \/ Generate \/ Close \/ Finish
ToolSpec == ToolInit(Scenarios) /\ [][ToolNext]_tvars /\ WF_tvars(ToolNext)

-----------------------------------------------------------------------------

Over == at = "end"
Ends == <>Over
Shown(i) == fs[i] \in {"new", "part"}

\* C08
Aborted == sc.fault = "usage" \/ (sc.fault = "write" /\ opened = Len(sc.outs))
StatusTellsErrors == Over => IF Aborted THEN code # 0 ELSE (code = 0) <=> (err = sc.xfail)
NothingLeftBehind == Over => /\ tmp = {}
                             /\ (err /\ ~sc.keep) => \A i \in DOMAIN fs : ~Shown(i)
EverythingThere == (Over /\ ~err) => \A i \in DOMAIN fs : fs[i] = "new"
\* At no time is there incomplete code at an output path, unless it is to be kept.
NeverPartial == \A i \in DOMAIN fs : fs[i] = "part" => sc.keep
ErrorsHaveCauses == Over => (err <=> \/ sc.fault \notin {"none", "warning", "write"}
                                     \/ \E i \in DOMAIN sc.outs : sc.outs[i] \notin Usable
                                     \/ sc.fault = "write")
=============================================================================
