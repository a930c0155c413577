------------------------------ MODULE FilesTrace ------------------------------
(* Validates what commands left behind and how loads ended against Files. *)
EXTENDS Files, IOUtils

VARIABLES l
tvars == <<file, run, exit, ws, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(a) == l <= Len(Trace) /\ Ev.a = a /\ l' = l + 1

TraceInit == Init /\ l = 1

TReset == Is("reset") /\ file' = [f \in FILES |-> Nothing] /\ run' = Idle /\ exit' = "none" /\ ws' = "none"

\* Begin, Write.. and End of one command, observed from outside: how it ended, and what lies in the files.
\* outs: [f, m, size, have, same, kept]; same: what is there is a beginning of what was to be written
\* (of have units); kept: what is there is what was there before, untouched.
Outs == {Ev.outs[j] : j \in 1..Len(Ev.outs)}
OutOf(f) == CHOOSE o \in Outs : o.f = f
TRun ==
  /\ Is("run")
  /\ ~run.on
  /\ LET need == \E o \in Outs : o.size > Ev.limit IN
       /\ Ev.exit = (IF need THEN "failure" ELSE "success")
       /\ \A o \in Outs : IF need THEN o.kept \/ (o.same /\ o.have <= Min(o.size, Ev.limit))
                                   ELSE o.same /\ o.have = o.size
  /\ exit' = Ev.exit
  /\ file' = [f \in FILES |-> IF (\E o \in Outs : o.f = f) /\ ~(Ev.exit = "failure" /\ OutOf(f).kept)
                              THEN [m |-> OutOf(f).m, size |-> OutOf(f).size, have |-> OutOf(f).have, how |-> "whole"]
                              ELSE file[f]]
  /\ UNCHANGED <<run, ws>>

\* A file, or part of one, or a damaged one, put in place by the driver.
TPlace ==
  /\ Is("place")
  /\ Ev.how \in HOWS \cup {"whole"}
  /\ file' = [file EXCEPT ![Ev.f] = [m |-> Ev.m, size |-> Ev.size, have |-> Ev.have, how |-> Ev.how]]
  /\ UNCHANGED <<run, exit, ws>>

\* A load, by whatever means: "refused" or the model that was loaded, and what the reader made of it:
\* the model it passed on, or "none" if it wrote nothing.
TLoad ==
  /\ Is("load")
  /\ Ev.got = Outcome(file[Ev.f])
  /\ Ev.wrote = (IF Ev.got = "refused" THEN "none" ELSE Ev.got)
  /\ Load(Ev.f)

TraceNext == TReset \/ TRun \/ TPlace \/ TLoad
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Trace)]))
=============================================================================
