---------------------------- MODULE ThreadQueue ----------------------------
(***************************************************************************)
(* The in-process messenger (threads_messenger.h): a queue guarded by a    *)
(* mutex with a condition variable, one sender and one receiver thread     *)
(* (one direction).  Checked exhaustively: FIFO, no message lost or        *)
(* duplicated, no lost wake-up (every message is eventually received, even *)
(* with spurious wake-ups), and refinement of Channel.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANT MaxMsgs
VARIABLES queue, lock, sp, rp, n, sig, got
vars == <<queue, lock, sp, rp, n, sig, got>>
\* sp: sender at "idle","locked","pushed","notified"; rp: receiver at "idle","locked","waiting","awake"
Init == queue = <<>> /\ lock = "" /\ sp = "idle" /\ rp = "idle" /\ n = 0 /\ sig = FALSE /\ got = <<>>
SLock == sp = "idle" /\ n < MaxMsgs /\ lock = "" /\ lock' = "s" /\ sp' = "locked" /\ UNCHANGED <<queue, rp, n, sig, got>>
SPush == sp = "locked" /\ queue' = Append(queue, n + 1) /\ n' = n + 1 /\ sp' = "pushed" /\ UNCHANGED <<lock, rp, sig, got>>
SNotify == sp = "pushed" /\ sp' = "notified" /\ rp' = (IF rp = "waiting" THEN "awake" ELSE rp) /\ UNCHANGED <<queue, lock, n, sig, got>>
SUnlock == sp = "notified" /\ lock' = "" /\ sp' = "idle" /\ UNCHANGED <<queue, rp, n, sig, got>>
RLock == rp \in {"idle", "awake"} /\ lock = "" /\ lock' = "r" /\ rp' = "locked" /\ UNCHANGED <<queue, sp, n, sig, got>>
RWait == rp = "locked" /\ queue = <<>> /\ lock' = "" /\ rp' = "waiting" /\ UNCHANGED <<queue, sp, n, sig, got>>
RPop == rp = "locked" /\ queue # <<>> /\ got' = Append(got, Head(queue)) /\ queue' = Tail(queue) /\ lock' = "" /\ rp' = "idle" /\ UNCHANGED <<sp, n, sig>>
Spurious == rp = "waiting" /\ ~sig /\ sig' = TRUE /\ rp' = "awake" /\ UNCHANGED <<queue, lock, sp, n, got>>
Next == SLock \/ SPush \/ SNotify \/ SUnlock \/ RLock \/ RWait \/ RPop \/ Spurious
Spec == Init /\ [][Next]_vars /\ SF_vars(SLock) /\ WF_vars(SPush) /\ WF_vars(SNotify) /\ WF_vars(SUnlock)
             /\ SF_vars(RLock) /\ WF_vars(RWait) /\ WF_vars(RPop)
Fifo == got \o queue = [i \in 1..n |-> i]
Mutex == ~(sp \in {"locked", "pushed", "notified"} /\ rp = "locked")
Live == \A k \in 1..MaxMsgs : (n >= k) ~> (Len(got) >= k)
Abs == INSTANCE Channel WITH q <- queue, closed <- FALSE, ended <- FALSE, Msgs <- 1..MaxMsgs
Refines == Abs!Spec
=============================================================================
