---------------------------- MODULE TrainingTrace ----------------------------
(***************************************************************************)
(* Validates logs of the real training command against Training.  A trace  *)
(* is a sequence of runs: {a:"run", n, bad, workers} ... steps ...         *)
(* {a:"exit", code (0 or 1), model (a model was written)}.                  *)
(***************************************************************************)
EXTENDS Training, TLC, Json, IOUtils
VARIABLE i
tv == tvars

Rec == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[k] : k \in 1..Len(s)}

Init == n = 0 /\ bad = {} /\ unread = {} /\ workers = {} /\ TInit /\ i = 1

Same == UNCHANGED setup
Run(e) == /\ n' = e.n /\ bad' = Range(e.bad) /\ workers' = Range(e.workers) /\ unread' = Range(e.unread)
          /\ nread' = 0 /\ taker' = <<>> /\ published' = {} /\ nrecv' = 0 /\ nlearned' = 0
          /\ eof' = FALSE /\ outcome' = "running"
\* the command ended: a failure has no step of its own in the log, the exit shows it
Exit(e) == /\ Same
           /\ IF e.code = 0
              THEN outcome = "ok" /\ e.model /\ UNCHANGED tv
              ELSE ~e.model /\ TFail
EndStep == IF outcome = "running" /\ nread < n
           \* the reader stops early only because the learner has failed
           THEN /\ bad # {} /\ eof' = TRUE
                /\ UNCHANGED <<nread, taker, published, nrecv, nlearned, outcome>>
           ELSE TEnd
Step(e) == CASE e.a = "run" -> Run(e)
             [] e.a = "read" -> TRead /\ e.x = nread + 1 /\ Same
             [] e.a = "end" -> EndStep /\ Same
             [] e.a = "take" -> TTake(e.w, e.x) /\ Same
             [] e.a = "publish" -> TPublish(e.w, e.x) /\ Same
             [] e.a = "recv" -> TRecv(e.x) /\ Same
             [] e.a = "learned" -> TLearned(e.x) /\ Same
             [] e.a = "finish" -> TFinish /\ Same
             [] e.a = "exit" -> Exit(e)
TraceNext == i <= Len(Rec) /\ Step(Rec[i]) /\ i' = i + 1
TraceSpec == Init /\ [][TraceNext]_<<setup, tv, i>>
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1]))
=============================================================================
