----------------------------- MODULE Messenger -----------------------------
(***************************************************************************)
(* The messenger as its users see it: two independent unbounded FIFO       *)
(* channels, "a" (from side a) and "b" (from side b).  A receive waits for *)
(* a message; on a closed channel that is empty it reports the end.        *)
(*                                                                         *)
(* Used to validate traces (MessengerTrace), to generate schedules that    *)
(* are replayed into the implementations (the Gen part below), and as the  *)
(* abstraction that Framing and ThreadQueue are checked to implement.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Ch0 == [q |-> <<>>, closed |-> FALSE, cut |-> FALSE]
CSend(c, m) == [c EXCEPT !.q = Append(@, m)]
CanRecv(c, m) == c.q # <<>> /\ Head(c.q) = m
CRecv(c) == [c EXCEPT !.q = Tail(@)]
CClose(c, cut) == [c EXCEPT !.closed = TRUE, !.cut = cut]
CanEnd(c) == c.q = <<>> /\ c.closed

---------------------------------------------------------------------------
(* Schedules: any interleaving of sends and receives that cannot block     *)
(* forever, ending with everything received and a close.                   *)
CONSTANTS NMsg, Depth
VARIABLES ch, h, fin
gvars == <<ch, h, fin>>
Sides == {"a", "b"}
Other(d) == IF d = "a" THEN "b" ELSE "a"
GenInit == ch = [d \in Sides |-> Ch0] /\ h = <<>> /\ fin = FALSE
GSend(d) == /\ Len(h) < Depth /\ ~ch[d].closed
            /\ \E i \in 0..(NMsg-1) : ch' = [ch EXCEPT ![d] = CSend(@, i)] /\ h' = Append(h, <<d, "s", i>>)
            /\ UNCHANGED fin
GRecv(d) == /\ ch[d].q # <<>>
            /\ ch' = [ch EXCEPT ![d] = CRecv(@)] /\ h' = Append(h, <<Other(d), "r", 0>>) /\ UNCHANGED fin
GClose == /\ Len(h) >= Depth /\ \A d \in Sides : ch[d].q = <<>> /\ ~ch[d].closed
          /\ \E d \in Sides : ch' = [ch EXCEPT ![d] = CClose(@, FALSE)] /\ h' = h \o << <<d, "c", 0>>, <<Other(d), "r", 0>> >>
          /\ UNCHANGED fin
GDone == /\ ~fin /\ \E d \in Sides : ch[d].closed
         /\ fin' = TRUE /\ PrintT(<<"H", h>>) /\ UNCHANGED <<ch, h>>
GenNext == GDone \/ GClose \/ (\E d \in Sides : GSend(d) \/ GRecv(d))
=============================================================================
