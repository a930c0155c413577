------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The training command with parsing threads: one reader, several workers  *)
(* and the learner, connected by two bounded queues (capacity 0: a send    *)
(* waits for the receiver).  The reader sends each example to both queues; *)
(* the learner waits on the example's own ready flag.  When the learner    *)
(* meets a bad example it leaves, which disconnects its queue; the reader  *)
(* notices at its next send to it and stops; workers stop when their queue *)
(* is empty and no longer fed.                                             *)
(*                                                                         *)
(* learnFirst: the reader serves the learner's queue before the workers'   *)
(* (the command does the opposite); both must work.                        *)
(***************************************************************************)
EXTENDS Training, TLC

CONSTANTS MaxN, WS, MaxQ,
          Fault    \* "none"; or a defect, to show that the properties can fail:
                   \* "keep": the learner leaves without disconnecting its queue,
                   \* "die": a worker leaves without publishing a bad example,
                   \* "late": the ready flag is set and the result never follows

VARIABLES q, learnFirst, \* chosen at the start, as is the setup
          pq, lq,        \* queue contents
          rd,            \* the reader: [at, x]
          wk,            \* worker -> the example in hand, 0: idle, 99: exited
          ready,         \* examples whose ready flag is set
          ln,            \* the learner: "recv", "await", "left", "done"
          lqOpen         \* the learner still holds its receiver
tv == tvars
vars == <<n, bad, workers, q, learnFirst, tv, pq, lq, rd, wk, ready, ln, lqOpen>>
fixed == <<setup, q, learnFirst>>

Init == /\ n \in 0..MaxN /\ bad \in SUBSET (1..n) /\ unread \in SUBSET bad
        /\ workers \in (SUBSET WS) \ {{}} /\ q \in 0..MaxQ /\ learnFirst \in BOOLEAN
        /\ TInit
        /\ pq = <<>> /\ lq = <<>>
        /\ rd = [at |-> "read", x |-> 0]
        /\ wk = [w \in workers |-> 0]
        /\ ready = {} /\ ln = "recv" /\ lqOpen = TRUE

Cap == IF q = 0 THEN 1 ELSE q
First == IF learnFirst THEN "lsend" ELSE "psend"
After(at) == IF at = First THEN (IF learnFirst THEN "psend" ELSE "lsend") ELSE "read"

RRead == /\ rd.at = "read"
         /\ TRead
         /\ rd' = [at |-> First, x |-> nread + 1]
         /\ UNCHANGED <<fixed, pq, lq, wk, ready, ln, lqOpen>>
Stop == rd' = [at |-> "done", x |-> 0]
\* a send to a queue: with capacity 0 the sender then waits until the item is gone
RSendP == /\ rd.at = "psend" /\ Len(pq) < Cap
          /\ pq' = Append(pq, rd.x)
          /\ rd' = [rd EXCEPT !.at = IF q = 0 THEN "pwait" ELSE After("psend")]
          /\ UNCHANGED <<fixed, tv, lq, wk, ready, ln, lqOpen>>
RWaitP == /\ rd.at = "pwait" /\ pq = <<>>
          /\ rd' = [rd EXCEPT !.at = After("psend")]
          /\ UNCHANGED <<fixed, tv, pq, lq, wk, ready, ln, lqOpen>>
RSendL == /\ rd.at = "lsend" /\ lqOpen /\ Len(lq) < Cap
          /\ lq' = Append(lq, rd.x)
          /\ rd' = [rd EXCEPT !.at = IF q = 0 THEN "lwait" ELSE After("lsend")]
          /\ UNCHANGED <<fixed, tv, pq, wk, ready, ln, lqOpen>>
RWaitL == /\ rd.at = "lwait" /\ lqOpen /\ lq = <<>>
          /\ rd' = [rd EXCEPT !.at = After("lsend")]
          /\ UNCHANGED <<fixed, tv, pq, lq, wk, ready, ln, lqOpen>>
\* the send fails: nobody will ever receive
RBreak == /\ rd.at \in {"lsend", "lwait"} /\ ~lqOpen
          /\ TEnd /\ Stop
          /\ UNCHANGED <<fixed, pq, lq, wk, ready, ln, lqOpen>>
REof == /\ rd.at = "read" /\ nread = n
        /\ TEnd /\ Stop
        /\ UNCHANGED <<fixed, pq, lq, wk, ready, ln, lqOpen>>

Busy(w) == wk[w] \in 1..n
\* the reader dies; its ends of the queues go with it
RCrash == /\ rd.at = "read" /\ nread + 1 \in unread
          /\ TEnd /\ Stop
          /\ UNCHANGED <<fixed, pq, lq, wk, ready, ln, lqOpen>>

WTake(w) == /\ wk[w] = 0 /\ pq # <<>>
            /\ TTake(w, Head(pq))
            /\ pq' = Tail(pq)
            /\ wk' = [wk EXCEPT ![w] = Head(pq)]
            /\ UNCHANGED <<fixed, lq, rd, ready, ln, lqOpen>>
\* announced (logged), then visible through the ready flag
WPublish(w) == /\ Busy(w) /\ wk[w] \notin published
               /\ (Fault = "die" => wk[w] \notin bad)
               /\ TPublish(w, wk[w])
               /\ UNCHANGED <<fixed, pq, lq, rd, wk, ready, ln, lqOpen>>
WReady(w) == /\ Busy(w) /\ (wk[w] \in published \/ Fault = "late")
             /\ ready' = ready \cup {wk[w]}
             /\ wk' = [wk EXCEPT ![w] = 0]
             /\ UNCHANGED <<fixed, tv, pq, lq, rd, ln, lqOpen>>
WExit(w) == /\ wk[w] = 0 /\ pq = <<>> /\ rd.at = "done"
            /\ wk' = [wk EXCEPT ![w] = 99]
            /\ UNCHANGED <<fixed, tv, pq, lq, rd, ready, ln, lqOpen>>

LRecv == /\ ln = "recv" /\ lq # <<>>
         /\ TRecv(Head(lq))
         /\ lq' = Tail(lq)
         /\ ln' = "await"
         /\ UNCHANGED <<fixed, pq, rd, wk, ready, lqOpen>>
LLearn == /\ ln = "await" /\ nrecv \in ready /\ nrecv \notin bad
          /\ TLearned(nrecv)
          /\ ln' = "recv"
          /\ UNCHANGED <<fixed, pq, lq, rd, wk, ready, lqOpen>>
LFail == /\ ln = "await" /\ nrecv \in ready /\ nrecv \in bad
         /\ TFail
         /\ ln' = "left" /\ lqOpen' = (Fault = "keep")
         /\ UNCHANGED <<fixed, pq, lq, rd, wk, ready>>
LDone == /\ ln = "recv" /\ lq = <<>> /\ rd.at = "done"
         /\ ln' = "left"
         /\ UNCHANGED <<fixed, tv, pq, lq, rd, wk, ready, lqOpen>>
\* the command joins its threads before it reports
Joined == rd.at = "done" /\ \A w \in workers : wk[w] = 99
Finish == /\ ln = "left" /\ Joined
          /\ ln' = "done"
          /\ IF outcome = "failed" THEN UNCHANGED tv
             ELSE IF nlearned = n THEN TFinish ELSE TFail
          /\ UNCHANGED <<fixed, pq, lq, rd, wk, ready, lqOpen>>

Takes == \E w \in workers : WTake(w)
Publishes == \E w \in workers : WPublish(w)
Readies == \E w \in workers : WReady(w)
Exits == \E w \in workers : WExit(w)
Next == \/ RRead \/ RSendP \/ RWaitP \/ RSendL \/ RWaitL \/ RBreak \/ REof \/ RCrash
        \/ Takes \/ Publishes \/ Readies \/ Exits
        \/ LRecv \/ LLearn \/ LFail \/ LDone \/ Finish
Spec == Init /\ [][Next]_vars
        /\ WF_vars(RRead \/ RSendP \/ RWaitP \/ RSendL \/ RWaitL \/ RBreak \/ REof \/ RCrash)
        /\ \A w \in WS : WF_vars(w \in workers /\ (WTake(w) \/ WPublish(w) \/ WReady(w) \/ WExit(w)))
        /\ WF_vars(LRecv \/ LLearn \/ LFail \/ LDone \/ Finish)

\* C21, C22 on the design
Refines == TSpec
Terminates == <>(ln = "done")
\* The reader never runs far ahead of the learner, so that a failure ends the run promptly.
Bounded == nread <= nlearned + Cap + 3
\* Nothing is parsed twice and nobody holds the same example.
Exclusive == \A v, w \in workers : v # w /\ Busy(v) /\ Busy(w) => wk[v] # wk[w]
Order == \A i, j \in 1..Len(lq) : i < j => lq[i] < lq[j]
NoDeadlock == (~ENABLED Next) => ln = "done"
=============================================================================
