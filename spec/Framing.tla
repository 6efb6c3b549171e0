------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* Length-prefixed messages over a byte stream (TCP.h): the sender writes  *)
(* header and body in pieces of any size, the network delivers pieces of   *)
(* any size, the receiver reads pieces of any size and reassembles.  One   *)
(* direction; a unit stands for a byte.  Checked exhaustively within the   *)
(* bounds: what is received is a prefix of what was sent (Prefix), a       *)
(* receive that reports the end has delivered every complete message       *)
(* (EndOk), every message is eventually received unless the connection is  *)
(* closed (Live), and the whole implements Messenger's channel (Refines).  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Hdr, MaxLen, MaxMsgs
VARIABLES sent,    \* lengths of the messages whose sending has begun
          out,     \* units of the current message not yet written
          net,     \* units written, not yet arrived
          buf,     \* units arrived, not yet read
          rx,      \* units of the current frame read so far
          got,     \* bodies received
          st       \* receiver: "recv" | "end"; closed by the sender: clo
          , clo
vars == <<sent, out, net, buf, rx, got, st, clo>>

\* message number i of length n as units: the header spells n, the body (i, position)
Units(i, n) == [k \in 1..(Hdr + n) |-> IF k <= Hdr THEN <<"h", n, k>> ELSE <<"b", i, k - Hdr>>]
Body(i, n) == [k \in 1..n |-> <<"b", i, k>>]

Init == sent = <<>> /\ out = <<>> /\ net = <<>> /\ buf = <<>> /\ rx = <<>> /\ got = <<>> /\ st = "recv" /\ clo = FALSE

Send == /\ out = <<>> /\ ~clo /\ Len(sent) < MaxMsgs
        /\ \E n \in 0..MaxLen : sent' = Append(sent, n) /\ out' = Units(Len(sent) + 1, n)
        /\ UNCHANGED <<net, buf, rx, got, st, clo>>
\* send() transfers 1..all of what is left
Write == /\ out # <<>>
         /\ \E k \in 1..Len(out) : net' = net \o SubSeq(out, 1, k) /\ out' = SubSeq(out, k + 1, Len(out))
         /\ UNCHANGED <<sent, buf, rx, got, st, clo>>
Arrive == /\ net # <<>>
          /\ \E k \in 1..Len(net) : buf' = buf \o SubSeq(net, 1, k) /\ net' = SubSeq(net, k + 1, Len(net))
          /\ UNCHANGED <<sent, out, rx, got, st, clo>>
\* the sender may close between messages or die in the middle of one
Close == ~clo /\ clo' = TRUE /\ out' = <<>> /\ UNCHANGED <<sent, net, buf, rx, got, st>>

\* how many units the receiver still wants: the header first, then the body
Want == IF Len(rx) < Hdr THEN Hdr - Len(rx) ELSE rx[1][2] + Hdr - Len(rx)
Deliver(r) == IF Len(r) >= Hdr /\ Len(r) = Hdr + r[1][2]
              THEN rx' = <<>> /\ got' = Append(got, SubSeq(r, Hdr + 1, Len(r)))
              ELSE rx' = r /\ UNCHANGED got
\* read() returns 1..min(wanted, arrived)
Read == /\ st = "recv" /\ buf # <<>>
        /\ \E k \in 1..(IF Want < Len(buf) THEN Want ELSE Len(buf)) :
             /\ Deliver(rx \o SubSeq(buf, 1, k))
             /\ buf' = SubSeq(buf, k + 1, Len(buf))
        /\ UNCHANGED <<sent, out, net, st, clo>>
ReadEnd == /\ st = "recv" /\ clo /\ net = <<>> /\ buf = <<>> /\ st' = "end"
           /\ UNCHANGED <<sent, out, net, buf, rx, got, clo>>
Next == Send \/ Write \/ Arrive \/ Close \/ Read \/ ReadEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Arrive) /\ WF_vars(Read) /\ WF_vars(ReadEnd)

---------------------------------------------------------------------------
Prefix == Len(got) <= Len(sent) /\ \A i \in 1..Len(got) : got[i] = Body(i, sent[i])
Complete == IF clo /\ Len(rx) + Len(buf) + Len(net) > 0 THEN Len(sent) ELSE Len(sent)
EndOk == st = "end" => Len(got) >= Len(sent) - 1 /\ (rx = <<>> => (got = [i \in 1..Len(got) |-> Body(i, sent[i])]))
Live == \A n \in 1..MaxMsgs : (Len(sent) >= n) ~> (Len(got) >= n \/ clo)
Ends == clo ~> (st = "end")

\* the abstract channel: messages begun and not yet received, until the close
\* shows which of them can still be completed
Whole == \* messages that are complete or still can be
  IF ~clo THEN Len(sent)
  ELSE LET all == rx \o buf \o net
           RECURSIVE Count(_)
           Count(s) == IF Len(s) < Hdr THEN 0 ELSE IF Len(s) < Hdr + s[1][2] THEN 0
                       ELSE 1 + Count(SubSeq(s, Hdr + s[1][2] + 1, Len(s)))
       IN Len(got) + Count(all)
AbsQ == [i \in 1..(Whole - Len(got)) |-> Body(Len(got) + i, sent[Len(got) + i])]
Abs == INSTANCE Channel WITH q <- AbsQ, closed <- clo, ended <- (st = "end"), Msgs <- {Body(i, n) : i \in 1..MaxMsgs, n \in 0..MaxLen}
Refines == Abs!Spec
=============================================================================
