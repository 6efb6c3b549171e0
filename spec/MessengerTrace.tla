--------------------------- MODULE MessengerTrace --------------------------
(***************************************************************************)
(* Trace validation of messengers.  Events: s (a send begins, or in a cut  *)
(* stream: the message's last byte is about to be written), R (a receive   *)
(* returned this message), E (it reported the end), T (it threw), C (the   *)
(* channel was closed), P (closed in the middle of a message), died.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

M == INSTANCE Messenger WITH NMsg <- 1, Depth <- 1, ch <- <<>>, h <- <<>>, fin <- FALSE

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, c, e, v
tr == Traces[t]
TraceInit == t \in DOMAIN Traces /\ c = [d \in {"a", "b"} |-> M!Ch0] /\ e = 1 /\ v = ""

Ev == tr.ev[e]
Ok == CASE Ev.k = "s" -> ~c[Ev.d].closed
        [] Ev.k = "R" -> M!CanRecv(c[Ev.d], Ev.m)
        [] Ev.k = "E" -> M!CanEnd(c[Ev.d])
        [] Ev.k = "T" -> M!CanEnd(c[Ev.d]) /\ c[Ev.d].cut
        [] Ev.k \in {"C", "P"} -> TRUE
        [] OTHER -> FALSE
Next1 == CASE Ev.k = "s" -> [c EXCEPT ![Ev.d] = M!CSend(@, Ev.m)]
           [] Ev.k = "R" -> [c EXCEPT ![Ev.d] = M!CRecv(@)]
           [] Ev.k = "C" -> [c EXCEPT ![Ev.d] = M!CClose(@, FALSE)]
           [] Ev.k = "P" -> [c EXCEPT ![Ev.d] = M!CClose(@, TRUE)]
           [] OTHER -> c
Step == v = "" /\ e <= Len(tr.ev) /\ Ok /\ c' = Next1 /\ e' = e + 1 /\ UNCHANGED <<t, v>>
\* at the end of every scenario everything sent has been received
Quiet == \A d \in {"a", "b"} : c[d].q = <<>>
Judge == /\ v = ""
         /\ \/ e > Len(tr.ev) /\ v' = (IF Quiet THEN "ok" ELSE "bad")
            \/ e <= Len(tr.ev) /\ ~Ok /\ v' = "bad"
         /\ PrintT(<<"V", tr.id, v', ToString(<<e, IF e <= Len(tr.ev) THEN Ev ELSE "end of trace", "expected", c>>)>>)
         /\ UNCHANGED <<t, c, e>>
TraceNext == Step \/ Judge
=============================================================================
