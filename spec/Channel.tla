------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* One direction of a messenger: a FIFO that may lose its last message     *)
(* only by being closed in the middle of it.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT Msgs
VARIABLES q, closed, ended
vars == <<q, closed, ended>>
Init == q = <<>> /\ closed = FALSE /\ ended = FALSE
Send == ~closed /\ (\E m \in Msgs : q' = Append(q, m)) /\ UNCHANGED <<closed, ended>>
Receive == q # <<>> /\ ~ended /\ q' = Tail(q) /\ UNCHANGED <<closed, ended>>
Close == /\ ~closed /\ closed' = TRUE /\ UNCHANGED ended
         /\ q' = q \/ (q # <<>> /\ q' = SubSeq(q, 1, Len(q) - 1))
End == closed /\ q = <<>> /\ ~ended /\ ended' = TRUE /\ UNCHANGED <<q, closed>>
Next == Send \/ Receive \/ Close \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
