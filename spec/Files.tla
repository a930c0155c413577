-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The files reductionml writes and reads back.                            *)
(*                                                                         *)
(* A command writes the outputs it was asked for (a model, a model in      *)
(* JSON, predictions, a report); the place it writes to may take only so   *)
(* much, and the process may be stopped at any point, so that what remains *)
(* is a beginning of what was to be written.  Files may be damaged in      *)
(* other ways: bytes that are no model at all, a JSON model in which a     *)
(* part is missing, of the wrong kind, or does not fit the others.         *)
(*                                                                         *)
(* C29: loading gives the model a file completely holds, or is refused.    *)
(* C30: success means that everything asked for was completely written.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS FILES, MODELS,  \* places; models (and other outputs) that may be written there
          SIZES,          \* sizes an output may have (in units)
          LIMITS          \* how much a place may take

VARIABLES file,           \* file[f]: what was to be written, of which size, and how much of it is there
          run,            \* the outputs of the running command still to be written, and the limit
          exit,           \* how the latest command ended
          ws              \* the workspace of a reader: a model, or "none"
vars == <<file, run, exit, ws>>

Nothing == [m |-> "none", size |-> 0, have |-> 0, how |-> "whole"]
Whole(x) == x.m # "none" /\ x.have = x.size /\ x.how = "whole"
Min(a, b) == IF a < b THEN a ELSE b
Idle == [outs |-> {}, limit |-> 0, on |-> FALSE, failed |-> FALSE, asked |-> {}]

\* A command begins: for each output the file and what goes there.
Begin(outs, limit) ==
  /\ ~run.on
  /\ run' = [outs |-> outs, limit |-> limit, on |-> TRUE, failed |-> FALSE, asked |-> outs]
  /\ exit' = "running"
  /\ UNCHANGED <<file, ws>>

\* One output is written, as far as the place takes it.
Write(o) ==
  /\ run.on /\ o \in run.outs
  /\ LET n == Min(o.size, run.limit) IN
       /\ file' = [file EXCEPT ![o.f] = [m |-> o.m, size |-> o.size, have |-> n, how |-> "whole"]]
       /\ run' = [run EXCEPT !.outs = @ \ {o}, !.failed = @ \/ n < o.size]
  /\ UNCHANGED <<exit, ws>>

End ==
  /\ run.on /\ (run.outs = {} \/ run.failed)
  /\ run' = Idle
  /\ exit' = IF run.failed THEN "failure" ELSE "success"
  /\ UNCHANGED <<file, ws>>

\* The process is stopped; the output being written is cut short.
Kill(o, k) ==
  /\ run.on /\ o \in run.outs /\ k < o.size
  /\ file' = [file EXCEPT ![o.f] = [m |-> o.m, size |-> o.size, have |-> k, how |-> "whole"]]
  /\ run' = Idle
  /\ exit' = "killed"
  /\ UNCHANGED ws

HOWS == {"garbage", "missing", "kind", "misfit"}
Damage(f, how) ==
  /\ ~run.on /\ Whole(file[f])
  /\ file' = [file EXCEPT ![f].how = how]
  /\ UNCHANGED <<run, exit, ws>>

Outcome(x) == IF Whole(x) THEN x.m ELSE "refused"
\* A refused load leaves the reader with what it had.
Load(f) ==
  /\ ~run.on /\ file[f].m # "none"
  /\ ws' = (IF Outcome(file[f]) = "refused" THEN ws ELSE file[f].m)
  /\ UNCHANGED <<file, run, exit>>

Init == /\ file = [f \in FILES |-> Nothing]
        /\ run = Idle /\ exit = "none" /\ ws = "none"

Outputs == {s \in SUBSET [f : FILES, m : MODELS, size : SIZES] : Cardinality({o.f : o \in s}) = Cardinality(s) /\ s # {}}
DoBegin == \E outs \in Outputs, l \in LIMITS : Begin(outs, l)
DoWrite == \E o \in run.outs : Write(o)
DoKill == \E o \in run.outs : \E k \in 0..(o.size - 1) : Kill(o, k)
DoDamage == \E f \in FILES, h \in HOWS : Damage(f, h)
DoLoad == \E f \in FILES : Load(f)
Next == DoBegin \/ DoWrite \/ End \/ DoKill \/ DoDamage \/ DoLoad
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == \A f \in FILES : file[f].have <= file[f].size
\* C30
SuccessIsComplete == [][(exit' = "success" /\ run.on) =>
                          \A o \in run.asked : Whole(file'[o.f]) /\ file'[o.f].m = o.m]_vars
FailureIsTold == [][(run.on /\ ~run'.on /\ \E o \in run.asked : o.size > run.limit) => exit' # "success"]_vars
EnoughIsSuccess == [][(run.on /\ ~run'.on /\ exit' # "killed" /\ \A o \in run.asked : o.size <= run.limit) => exit' = "success"]_vars
\* C29
OnlyWholeModels == [][ws' # ws => \E f \in FILES : Whole(file[f]) /\ ws' = file[f].m]_vars
=============================================================================
