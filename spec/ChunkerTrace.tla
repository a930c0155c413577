---------------------------- MODULE ChunkerTrace ----------------------------
(* Streams read by the real parsers: "stream" (mode), "line" (kind, identity) ..., "eof" (examples got). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES mode, lines, block, out, done, l
MaxLines == 1000000
MODES == {"single"}
P == INSTANCE Chunker
tvars == <<mode, lines, block, out, done, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(a) == l <= Len(Trace) /\ Ev.a = a /\ l' = l + 1

TraceInit == P!Init /\ l = 1
TStream == /\ Is("stream")
           /\ mode' = Ev.mode
           /\ lines' = <<>> /\ block' = <<>> /\ out' = <<>> /\ done' = FALSE
TLine == Is("line") /\ P!Line(Ev.k, Ev.i)
TEof == /\ Is("eof") /\ P!Eof
        /\ Ev.ok
        /\ Len(Ev.got) = Len(out')
        /\ \A j \in 1..Len(out') : Ev.got[j] = out'[j]
\* The training command learned from the same file: one prediction per example.
TCount == Is("count") /\ done /\ Ev.n = Len(out) /\ UNCHANGED <<mode, lines, block, out, done>>

TraceNext == TStream \/ TLine \/ TEof \/ TCount
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Trace)]))
=============================================================================
