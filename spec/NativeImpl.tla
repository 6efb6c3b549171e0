----------------------------- MODULE NativeImpl -----------------------------
(***************************************************************************)
(* How src/debugger/Native realises a debugging session on top of the VM's *)
(* protocol (DebugVM): breakpoints are BKPT instructions patched into the  *)
(* VM's text, watchpoints are debug registers, and the stepping commands   *)
(* are made of CONTINUE, SINGLESTEP and breakpoints that are set and       *)
(* removed on the way.  SessionModel checks that all of this is invisible: *)
(* that NativeImpl refines DebugSession.                                   *)
(*                                                                         *)
(* A debugger d is a record:                                               *)
(*   vm   the DebugVM it drives                                            *)
(*   bp   address -> [d |-> the instruction replaced, on |-> patched in?]  *)
(*   wp   address -> debug register                                        *)
(*   ev   the event reported last                                          *)
(***************************************************************************)
EXTENDS DebugVM

BkptIns == [op |-> "BKPT", a |-> [k |-> "N"], b |-> [k |-> "N"]]
NilFn == [a \in {} |-> 0]
DInit(v) == [vm |-> v, bp |-> NilFn, wp |-> NilFn, ev |-> [e |-> "begin", a |-> -1]]

Put(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Drop(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]

---------------------------------------------------------------------------
(* The protocol as the debugger uses it.                                   *)
Ask(d, q) == [d EXCEPT !.vm = VDo(d.vm, q)]
IP(d) == d.vm.m.pc
At(d) == ToNat(IP(d))
PokeText(d, a, i) == Ask(d, [q |-> "POKETEXT", i |-> a, ins |-> i])
PokeIP(d, w) == Ask(d, [q |-> "POKEREGS", r |-> "IP", v |-> w])
PokeD(d, i, w) == Ask(d, [q |-> "POKEDEBUGREGS", i |-> i, v |-> w])

RECURSIVE Settle(_)
Settle(v) == IF v.phase = "running" THEN Settle(VStep(v)) ELSE v

---------------------------------------------------------------------------
(* Breakpoints.                                                            *)
Patch(d, a) == [PokeText(d, a, BkptIns) EXCEPT !.bp = Put(@, a, [d |-> d.vm.text[a + 1], on |-> TRUE])]
Enable(d, a) == IF d.bp[a].on THEN d ELSE Patch(d, a)
Disable(d, a) == IF d.bp[a].on THEN [PokeText(d, a, d.bp[a].d) EXCEPT !.bp[a].on = FALSE] ELSE d
Unset(d, a) == [Disable(d, a) EXCEPT !.bp = Drop(@, a)]
OnAt(d, a) == a \in DOMAIN d.bp /\ d.bp[a].on

\* what the user sees of the text
Text(d) == [k \in DOMAIN d.vm.text |-> IF k - 1 \in DOMAIN d.bp THEN d.bp[k - 1].d ELSE d.vm.text[k]]

RECURSIVE WriteFrom(_, _, _, _)
WriteFrom(d, a, is, k) ==
  IF k > Len(is) THEN d
  ELSE LET p == a + k - 1
           d2 == PokeText(d, p, is[k])
           d3 == IF p \notin DOMAIN d.bp THEN d2
                 ELSE LET saved == [d2 EXCEPT !.bp[p].d = is[k]]
                      IN IF d.bp[p].on THEN PokeText(saved, p, BkptIns) ELSE saved
       IN WriteFrom(d3, a, is, k + 1)

RECURSIVE UnsetAll(_)
UnsetAll(d) == IF DOMAIN d.bp = {} THEN d ELSE UnsetAll(Unset(d, CHOOSE a \in DOMAIN d.bp : TRUE))

---------------------------------------------------------------------------
(* Watchpoints.                                                            *)
FreeReg(d) == CHOOSE i \in 0..NWatch - 1 : /\ \A a \in DOMAIN d.wp : d.wp[a] # i
                                           /\ \A j \in 0..i - 1 : \E a \in DOMAIN d.wp : d.wp[a] = j
BitW(i) == <<2^i, 0, 0, 0>>
Watch(d, a) == LET i == FreeReg(d) d2 == PokeD(d, i, FromInt(a))
               IN [PokeD(d2, 4, WOr(Control(d2.vm), BitW(i))) EXCEPT !.wp = Put(@, a, i)]
Unwatch(d, a) == [PokeD(d, 4, WAnd(Control(d.vm), WNot(BitW(d.wp[a])))) EXCEPT !.wp = Drop(@, a)]
\* the debug register named by the second byte of the control register
Responsible(d) == CHOOSE i \in 0..NWatch - 1 : (Control(d.vm)[1] \div 256) % 256 = 2^i

---------------------------------------------------------------------------
(* Events.  Each of these is the debugger at the next stop of the VM.      *)
Event1(e, a) == [e |-> e, a |-> a]
Await(d0) ==
  LET d == [d0 EXCEPT !.vm = Settle(@)] w == d.vm.why IN
  CASE w = "SW_BKPT" -> LET d2 == PokeIP(d, WSub(IP(d), One)) IN [d2 EXCEPT !.ev = Event1("bp", At(d2))]
    [] w = "HW_BKPT" -> [d EXCEPT !.ev = Event1("wp", CHOOSE a \in DOMAIN d.wp : d.wp[a] = Responsible(d))]
    [] w = "SINGLESTEP" -> [d EXCEPT !.ev = Event1("step", -1)]
    [] w = "HALT" -> [d EXCEPT !.ev = Event1("end", -1)]
    [] w = "CPU_ERROR" -> [d EXCEPT !.ev = Event1("err", -1)]

RawStep(d) == Await(Ask(d, [q |-> "SINGLESTEP"]))
StepAcross(d) == Enable(RawStep(Disable(d, At(d))), At(d))
PerformStep(d) == IF OnAt(d, At(d)) THEN StepAcross(d) ELSE RawStep(d)
\* a step off a breakpoint that meets something else ends the command
Continue(d) ==
  IF ~OnAt(d, At(d)) THEN Await(Ask(d, [q |-> "CONTINUE"]))
  ELSE LET d2 == StepAcross(d) IN IF d2.ev.e = "step" THEN Await(Ask(d2, [q |-> "CONTINUE"])) ELSE d2

(* Stepping over a call runs to a breakpoint behind it; a recursive call   *)
(* may meet it too, in another frame.                                      *)
RECURSIVE RunToReturn(_, _, _, _)
RunToReturn(d, ret, fp, keep) ==
  LET d2 == Continue(d)
      there == d2.ev.e = "bp" /\ IP(d2) = ret
      back == there /\ d2.vm.m.regs["BP"] = fp
  IN IF back THEN [d2 EXCEPT !.ev = Event1("step", -1)]
     ELSE IF ~there \/ keep THEN d2
     ELSE RunToReturn(d2, ret, fp, keep)

Current(d) == Text(d)[At(d) + 1].op
PerformOver(d, skip) ==
  IF Current(d) # "CALL" THEN (IF skip THEN PerformStep(d) ELSE RawStep(d))
  ELSE IF ~skip /\ OnAt(d, At(d)) THEN RawStep(d)
  ELSE LET ret == WAdd(IP(d), One) a == At(d) + 1
           has == a \in DOMAIN d.bp
           on == OnAt(d, a)
           inside == a < Len(d.vm.text)
           d2 == IF has THEN Enable(d, a) ELSE IF inside THEN Patch(d, a) ELSE d
           d3 == RunToReturn(d2, ret, d.vm.m.regs["BP"], on)
       IN IF has /\ ~on THEN Disable(d3, a) ELSE IF ~has /\ inside THEN Unset(d3, a) ELSE d3

RECURSIVE StepOut(_, _)
StepOut(d, skip) ==
  LET ret == Current(d) = "RET"
      d2 == PerformOver(d, skip)
  IN IF ret \/ d2.ev.e # "step" THEN d2 ELSE StepOut(d2, FALSE)

\* source level: until an address with a line
RECURSIVE InRest(_, _)
InRest(d, at) == IF d.ev.e = "step" /\ At(d) \notin at THEN InRest(RawStep(d), at) ELSE d
RECURSIVE OverRest(_, _)
OverRest(d, at) == IF d.ev.e = "step" /\ At(d) \notin at THEN OverRest(PerformOver(d, FALSE), at) ELSE d

---------------------------------------------------------------------------
(* The debugger after a command that is accepted.  at: addresses of lines. *)
DDo(d, q, at) ==
  CASE q.k = "cont" -> Continue(d)
    [] q.k = "si"   -> PerformStep(d)
    [] q.k = "so"   -> PerformOver(d, TRUE)
    [] q.k = "sout" -> StepOut(d, TRUE)
    [] q.k = "sin"  -> InRest(PerformStep(d), at)
    [] q.k = "sov"  -> OverRest(PerformOver(d, TRUE), at)
    [] q.k = "bps"  -> Patch(d, q.a)
    [] q.k = "bpu"  -> Unset(d, q.a)
    [] q.k = "bpe"  -> Enable(d, q.a)
    [] q.k = "bpd"  -> Disable(d, q.a)
    [] q.k = "wps"  -> Watch(d, q.a)
    [] q.k = "wpr"  -> Unwatch(d, q.a)
    [] q.k = "wt"   -> WriteFrom(d, q.a, q.ins, 1)
    [] q.k = "sm"   -> Ask(d, [q |-> "POKEDATA", i |-> q.a, v |-> q.v[1]])
    [] q.k = "sreg" -> Ask(d, [q |-> "POKEREGS", r |-> q.r, v |-> q.v])
    [] OTHER -> d
=============================================================================
