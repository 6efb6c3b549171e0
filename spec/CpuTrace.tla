----------------------------- MODULE CpuTrace ------------------------------
(***************************************************************************)
(* Trace validation of whole runs of the bare Cpu against the sequential   *)
(* ISA: for every recorded run the specification executes the program one  *)
(* instruction at a time and the final observation has to be the state it  *)
(* ends in.  A trace record:                                               *)
(*   id, prog, nr, nf, ram, data, inp   the program and configuration      *)
(*   ir, ifr, im, ifl                   initial overrides                  *)
(*   st, regs, fregs, mem, fl, out, left   the observation                 *)
(***************************************************************************)
EXTENDS T86ISA, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, m, n, v
vars == <<t, m, n, v>>

MaxSteps == 3000

Override(m0, tr) ==
  LET m1 == [m0 EXCEPT !.regs = [r \in DOMAIN m0.regs |->
                 LET s == {k \in DOMAIN tr.ir : tr.ir[k].r = r}
                 IN IF s = {} THEN m0.regs[r] ELSE tr.ir[CHOOSE k \in s : TRUE].v]]
      m2 == [m1 EXCEPT !.fregs = [r \in DOMAIN m0.fregs |->
                 LET s == {k \in DOMAIN tr.ifr : tr.ifr[k].r = r}
                 IN IF s = {} THEN m0.fregs[r] ELSE tr.ifr[CHOOSE k \in s : TRUE].v]]
      m3 == [m2 EXCEPT !.mem = [c \in DOMAIN m0.mem |->
                 LET s == {k \in DOMAIN tr.im : tr.im[k].a = c - 1}
                 IN IF s = {} THEN m0.mem[c] ELSE tr.im[CHOOSE k \in s : TRUE].v]]
  IN [m3 EXCEPT !.fl = tr.ifl]

TraceInit == /\ t \in DOMAIN Traces
             /\ LET tr == Traces[t]
                IN m = Override(InitMachine(tr.nr, tr.nf, tr.ram, tr.data, tr.inp), tr)
             /\ n = 0
             /\ v = "run"

tr == Traces[t]

(* The first component of the observation that differs, "" if none.        *)
Differs ==
  IF tr.st # m.st THEN "end"
  ELSE IF tr.mem # m.mem THEN "mem"
  ELSE IF tr.out # m.out THEN "out"
  ELSE IF m.st = "err" THEN ""
  ELSE IF \E r \in DOMAIN m.regs : tr.regs[r] # m.regs[r] THEN "regs"
  ELSE IF tr.pc # m.pc THEN "pc"
  ELSE IF tr.fl # m.fl THEN "flags"
  ELSE IF \E r \in DOMAIN m.fregs : ~FSame(tr.fregs[r], m.fregs[r]) THEN "fregs"
  ELSE IF tr.left # m.inp THEN "input"
  ELSE ""

Report(verdict, detail) == PrintT(<<"V", tr.id, verdict, ToString(detail)>>)

Execute == /\ v = "run" /\ m.st = "run" /\ n < MaxSteps
           /\ ~Undefined(m, Fetch(tr.prog, m.pc))
           /\ m' = Step(tr.prog, m)
           /\ n' = n + 1
           /\ UNCHANGED <<t, v>>

Give == /\ v = "run" /\ m.st = "run"
        /\ n >= MaxSteps \/ Undefined(m, Fetch(tr.prog, m.pc))
        /\ v' = IF n >= MaxSteps THEN "long" ELSE "undef"
        /\ Report(v', n)
        /\ UNCHANGED <<t, m, n>>

Compare == /\ v = "run" /\ m.st # "run"
           /\ v' = IF Differs = "" THEN "ok" ELSE "bad"
           /\ Report(v', IF Differs = "" THEN <<m.st, n>> ELSE
                         <<Differs, "spec", m.st, m.pc, m.regs, m.fl, m.fregs, m.out, m.mem>>)
           /\ UNCHANGED <<t, m, n>>

TraceNext == Execute \/ Give \/ Compare
=============================================================================
