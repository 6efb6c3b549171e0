--------------------------- MODULE ProtocolModel ---------------------------
(***************************************************************************)
(* The debug protocol (DebugVM) explored over every sequence of requests   *)
(* up to a depth on small programs: what it guarantees to every debugger   *)
(* is checked as invariants, and each transition of the graph is printed   *)
(* as the requests that lead to it, to be replayed into the real VM.       *)
(*                                                                         *)
(* A record of MODELS: prog, data, nr, nf, ram, inp; cmds, the requests to *)
(* choose from; depth.                                                     *)
(***************************************************************************)
EXTENDS DebugVM, Json, IOUtils

Models == ndJsonDeserialize(IOEnv.MODELS)
VARIABLES t, v, n, poked, last, h
vars == <<t, v, n, poked, last, h>>
md == Models[t]
M0 == InitMachine(md.nr, md.nf, md.ram, md.data, md.inp)

\* n: instructions executed so far; poked: has the debugger written anything
Init == /\ t \in DOMAIN Models
        /\ v = VInit(M0, md.prog)
        /\ n = 0 /\ poked = FALSE /\ last = [steps |-> 0, trap |-> FALSE, why |-> "", dr |-> <<>>, wr |-> <<>>] /\ h = <<>>

\* runs to the next stop; k, what it has executed
RECURSIVE Go(_, _, _)
Go(x, k, wr) ==
  IF x.phase # "running" THEN [v |-> x, k |-> k, wr |-> wr, ok |-> TRUE]
  ELSE IF k > 200 \/ Undefined(x.m, Fetch(x.text, x.m.pc)) THEN [v |-> x, k |-> k, wr |-> wr, ok |-> FALSE]
  ELSE LET y == VStep(x) IN Go(y, k + 1, Append(wr, IF y.m.st = "err" THEN <<>> ELSE y.m.wr))

Writes == {"POKETEXT", "POKEDATA", "POKEREGS", "POKEFLOATREGS"}
Next == \E c \in DOMAIN md.cmds :
          LET q == md.cmds[c]
              x == VDo(v, q) IN
          /\ Len(h) < md.depth /\ v.phase = "stopped" /\ ~Final(v)
          /\ LET g == Go(x, 0, <<>>) IN
             /\ g.ok
             /\ v' = g.v /\ n' = n + g.k
             /\ last' = IF x.phase = "running" THEN [steps |-> g.k, trap |-> q.q = "SINGLESTEP", why |-> g.v.why, dr |-> x.dr, wr |-> g.wr] ELSE last
             /\ poked' = (poked \/ q.q \in Writes)
             /\ h' = Append(h, c) /\ t' = t
             /\ PrintT(<<"S", t, h'>>)
View == <<t, v, last>>

---------------------------------------------------------------------------
RECURSIVE Iter(_, _)
Iter(m, k) == IF k = 0 THEN m ELSE Iter(Step(md.prog, m), k - 1)

\* however the run is cut, every stop is a state of the uncut execution (C05)
Transparent == ~poked => v.m = Iter(M0, n)
\* a single step executes one instruction (C05)
OneStep == last.trap => last.steps = 1
\* the request to step does not outlive the step (C05)
NoTrap == v.phase = "stopped" => ~v.trap
\* the reason says what happened (C06)
Reasons == v.phase = "stopped" =>
             /\ (v.why = "HALT") = (v.m.st = "halt")
             /\ (v.why = "CPU_ERROR") = (v.m.st = "err")
             /\ v.why = "SINGLESTEP" => last.trap
             /\ v.why = "START" => n = 0
\* no write to a watched cell passes unreported, none else is reported (C10)
HitsOf(k) == {i \in 0..3 : Bit(last.dr[5], i) = 1 /\ \E j \in DOMAIN last.wr[k] : last.dr[i + 1] = FromInt(last.wr[k][j])}
Watches == last.steps > 0 =>
             /\ \A k \in 1..(last.steps - 1) : HitsOf(k) = {}
             /\ last.why = "HW_BKPT" => HitsOf(last.steps) # {}
             /\ HitsOf(last.steps) # {} => last.why \in {"HW_BKPT", "CPU_ERROR", "HALT", "SW_BKPT"}
=============================================================================
