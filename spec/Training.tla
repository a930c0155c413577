------------------------------ MODULE Training ------------------------------
(***************************************************************************)
(* What the training command does, at the level of its visible steps:      *)
(* examples are read in file order, each is parsed by exactly one worker   *)
(* (or in line, without workers), and the learner learns them in file      *)
(* order, each once, after it was parsed.  A run ends well (finish) only   *)
(* when every example of the file was learned; it fails when it meets an   *)
(* example that cannot be used, having learned exactly those before it.    *)
(*                                                                         *)
(* Pipeline refines this specification; logs of the real command are       *)
(* validated against it (TrainingTrace).                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES n,        \* number of examples in the file
          bad,      \* those that cannot be used (malformed or unlabelled)
          unread,   \* bad ones that cannot even be read (not text)
          workers   \* worker names; {} when parsing happens in line
setup == <<n, bad, unread, workers>>   \* given at the start of a run

VARIABLES nread,     \* examples read so far
          taker,     \* example -> the worker that took it
          published, \* examples parsed
          nrecv,     \* examples the learner has asked for
          nlearned,  \* examples learned
          eof,       \* the reader has stopped
          outcome    \* "running", "ok", "failed"
tvars == <<nread, taker, published, nrecv, nlearned, eof, outcome>>

TInit == /\ nread = 0 /\ taker = <<>> /\ published = {} /\ nrecv = 0 /\ nlearned = 0
         /\ eof = FALSE /\ outcome = "running"

TRead == /\ nread < n /\ ~eof /\ nread + 1 \notin unread
         /\ nread' = nread + 1
         /\ UNCHANGED <<taker, published, nrecv, nlearned, eof, outcome>>
TEnd == /\ ~eof /\ (nread = n \/ outcome = "failed" \/ nread + 1 \in unread)
        /\ eof' = TRUE
        /\ UNCHANGED <<nread, taker, published, nrecv, nlearned, outcome>>
TTake(w, x) == /\ x \in 1..nread /\ x \notin DOMAIN taker
               \* a worker has one example at a time
               /\ \A y \in DOMAIN taker : taker[y] = w => y \in published
               /\ taker' = [y \in DOMAIN taker \cup {x} |-> IF y = x THEN w ELSE taker[y]]
               /\ UNCHANGED <<nread, published, nrecv, nlearned, eof, outcome>>
TPublish(w, x) == /\ x \in DOMAIN taker /\ taker[x] = w /\ x \notin published
                  /\ published' = published \cup {x}
                  /\ UNCHANGED <<nread, taker, nrecv, nlearned, eof, outcome>>
TRecv(x) == /\ outcome = "running"
            /\ x = nlearned + 1 /\ nrecv = nlearned /\ x <= nread
            /\ nrecv' = x
            /\ UNCHANGED <<nread, taker, published, nlearned, eof, outcome>>
\* in line, an example is learned right after it is read
TLearned(x) == /\ outcome = "running"
               /\ x = nlearned + 1 /\ x \notin bad
               /\ IF workers = {} THEN x = nread ELSE nrecv = x /\ x \in published
               /\ nlearned' = x
               /\ nrecv' = x
               /\ UNCHANGED <<nread, taker, published, eof, outcome>>
TFail == /\ outcome = "running"
         /\ nlearned + 1 \in bad
         /\ IF nlearned + 1 \in unread THEN nread = nlearned
            ELSE IF workers = {} THEN nread = nlearned + 1
            ELSE nrecv = nlearned + 1 /\ nrecv \in published
         /\ outcome' = "failed"
         /\ UNCHANGED <<nread, taker, published, nrecv, nlearned, eof>>
TFinish == /\ outcome = "running" /\ nlearned = n
           /\ outcome' = "ok"
           /\ UNCHANGED <<nread, taker, published, nrecv, nlearned, eof>>

TNext == \/ TRead \/ TEnd \/ TFail \/ TFinish
         \/ \E x \in 1..n : TRecv(x) \/ TLearned(x) \/ (\E w \in workers : TTake(w, x) \/ TPublish(w, x))
TSpec == TInit /\ [][TNext /\ UNCHANGED setup]_tvars /\ [][UNCHANGED setup]_setup

FirstBad == IF bad = {} THEN n + 1 ELSE CHOOSE b \in bad : \A c \in bad : b <= c

\* C21: learned in file order, each once; C22: a failure learns exactly the examples before the bad one.
Outcome == /\ nlearned < FirstBad
           /\ outcome = "ok" => bad = {} /\ nlearned = n
           /\ outcome = "failed" => bad # {} /\ nlearned = FirstBad - 1
=============================================================================
