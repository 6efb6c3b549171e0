------------------------------ MODULE DebugVM ------------------------------
(***************************************************************************)
(* The T86 virtual machine as a debugger sees it (src/t86/os, debug): a    *)
(* sequential machine that runs until something stops it, answers requests *)
(* while it is stopped, and goes on when it is told to.                    *)
(*                                                                         *)
(* A VM v is a record:                                                     *)
(*   m       the architectural machine of T86ISA                           *)
(*   text    the program text (debuggers can rewrite it)                   *)
(*   dr      debug registers D0..D4 (words); D0..D3 watched addresses,     *)
(*           D4 control: bit i activates Di, bits 8.. tell which hit last  *)
(*   trap    single step requested                                         *)
(*   phase   "stopped" | "running" | "ended"                               *)
(*   why     reason of the last stop                                       *)
(***************************************************************************)
EXTENDS T86ISA

NWatch == 4
VInit(m, text) == [m |-> m, text |-> text, dr |-> [i \in 1..5 |-> Zero], trap |-> FALSE,
                   phase |-> "stopped", why |-> "START"]

Control(v) == v.dr[5]
Active(v, i) == Bit(Control(v), i) = 1                          \* i \in 0..3
Watched(v, a) == {i \in 0..(NWatch-1) : Active(v, i) /\ v.dr[i+1] = FromInt(a)}
Max4(S) == CHOOSE i \in S : \A j \in S : j <= i
\* the second byte of the control register names the watch that was hit
Hit(c, i) == WOr(WAnd(c, <<255, 65535, 65535, 65535>>), <<256 * 2^i, 0, 0, 0>>)

(* One executed instruction.  A stop leaves the machine between two        *)
(* instructions.                                                           *)
VStep(v) ==
  LET m2 == Step(v.text, v.m)
      w  == IF m2.st = "err" THEN {} ELSE UNION {Watched(v, m2.wr[k]) : k \in DOMAIN m2.wr}
      dr2 == IF w = {} THEN v.dr ELSE [v.dr EXCEPT ![5] = Hit(Control(v), Max4(w))]
      why == IF m2.st = "err" THEN "CPU_ERROR"
             ELSE IF m2.st = "halt" THEN "HALT"
             ELSE IF m2.ev = "bkpt" THEN "SW_BKPT"
             ELSE IF w # {} THEN "HW_BKPT"
             ELSE IF v.trap THEN "SINGLESTEP"
             ELSE ""
  IN [v EXCEPT !.m = m2, !.dr = dr2,
               !.phase = IF why = "" THEN "running" ELSE "stopped",
               !.why   = IF why = "" THEN v.why ELSE why,
               !.trap  = IF why = "" THEN v.trap ELSE FALSE]

(* Requests.  VDo is the VM after the request, VReply what it answers.     *)
Resuming == {"CONTINUE", "SINGLESTEP"}
Final(v) == v.why \in {"HALT", "CPU_ERROR"}

VDo(v, q) ==
  CASE q.q = "CONTINUE"   -> IF Final(v) THEN [v EXCEPT !.phase = "ended"] ELSE [v EXCEPT !.phase = "running"]
    [] q.q = "SINGLESTEP" -> IF Final(v) THEN [v EXCEPT !.phase = "ended"]
                             ELSE [v EXCEPT !.phase = "running", !.trap = TRUE]
    [] q.q \in {"TERMINATE", "EOF"} -> [v EXCEPT !.phase = "ended"]
    [] q.q = "POKETEXT"   -> [v EXCEPT !.text[q.i + 1] = q.ins]
    [] q.q = "POKEDATA"   -> [v EXCEPT !.m.mem[q.i + 1] = q.v]
    [] q.q = "POKEREGS"   -> IF q.r = "IP" THEN [v EXCEPT !.m.pc = q.v]
                             ELSE IF q.r = "FLAGS" THEN [v EXCEPT !.m.fl = ToNat(q.v) % 16]
                             ELSE [v EXCEPT !.m.regs[q.r] = q.v]
    [] q.q = "POKEFLOATREGS" -> [v EXCEPT !.m.fregs[q.r] = q.v]
    [] q.q = "POKEDEBUGREGS" -> [v EXCEPT !.dr[q.i + 1] = q.v]
    [] OTHER -> v

Str(s) == [t |-> "s", s |-> s]
VReply(v, q) ==
  CASE q.q = "REASON" -> Str(v.why)
    [] q.q \in {"CONTINUE", "SINGLESTEP", "TERMINATE", "POKETEXT", "POKEDATA", "POKEREGS",
                "POKEFLOATREGS", "POKEDEBUGREGS"} -> Str("OK")
    [] q.q = "PEEKREGS" -> [t |-> "regs", regs |-> [r \in DOMAIN v.m.regs \cup {"IP"} |->
                              IF r = "IP" THEN v.m.pc ELSE v.m.regs[r]]]
    [] q.q = "PEEKFLOATREGS" -> [t |-> "fregs", regs |-> v.m.fregs]
    [] q.q = "PEEKDEBUGREGS" -> [t |-> "dregs", d |-> v.dr]
    [] q.q = "PEEKDATA" -> [t |-> "mem", m |-> SubSeq(v.m.mem, q.i + 1, q.i + q.n)]
    [] q.q = "PEEKTEXT" -> [t |-> "text", ins |-> [k \in 1..q.n |-> Fetch(v.text, FromInt(q.i + k - 1))]]
    [] q.q = "TEXTSIZE" -> [t |-> "num", v |-> FromInt(Len(v.text))]
    [] OTHER -> Str("UNKNOWN COMMAND")

(* After a CPU error the registers and the instruction pointer are not     *)
(* specified; memory, text, debug registers and output are.                *)
Unspecified(v, q) == v.why = "CPU_ERROR" /\ q.q \in {"PEEKREGS", "PEEKFLOATREGS"}
SameReply(rep, want) ==
  /\ rep.t = want.t
  /\ IF rep.t = "fregs" THEN /\ DOMAIN rep.regs = DOMAIN want.regs
                             /\ \A r \in DOMAIN want.regs : FSame(rep.regs[r], want.regs[r])
     ELSE rep = want
=============================================================================
