------------------------------ MODULE AsmTrace -----------------------------
(***************************************************************************)
(* Trace validation of the assembler and loader against Asm.  A record:    *)
(*   id, text (characters), floats (pairs text/bits)                       *)
(*   obs: parse "ok" | "reject" | anything else is a crash; ins, data      *)
(*        again, ins2: the printed program parsed by the implementation    *)
(*        printed: its characters                                          *)
(*   load: [on, ram, nr, nf, pc, regs, fregs, fl, mem]                     *)
(*         the machine after loading the file                              *)
(*   run: [on, inp, out, rc, err]  t86-cli on the file                     *)
(***************************************************************************)
EXTENDS Asm, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, ph, f, m, n
vars == <<t, ph, f, m, n>>
tr == Traces[t]
MaxSteps == 2000

FloatsOf(ps) == [s \in {ps[i].s : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i].s = s].v]
\* -0.0 and 0.0 are different operands, everything else compares as it is
SameIns(a, b) == a = b

TraceInit == t \in DOMAIN Traces /\ ph = "parse" /\ f = <<>> /\ m = <<>> /\ n = 0

Parse == /\ ph = "parse"
         /\ f' = File(Tokens(tr.text), FloatsOf(tr.floats))
         /\ ph' = IF tr.run.on /\ f'.r = "yes" /\ f'.fl = {} /\ Len(f'.data) <= tr.run.ram THEN "run" ELSE "judge"
         /\ m' = IF ph' = "run" THEN InitMachine(tr.run.nr, tr.run.nf, tr.run.ram, f'.data, tr.run.inp) ELSE <<>>
         /\ UNCHANGED <<t, n>>

Say(v, d) == /\ ph' = "done" /\ PrintT(<<"V", tr.id, v, ToString(d)>>) /\ UNCHANGED <<t, f, m, n>>

Printed == File(Tokens(tr.obs.printed), FloatsOf(tr.floats))
LoadOk == LET l == tr.load
              i == InitMachine(l.nr, l.nf, l.ram, f.data, <<>>)
          IN /\ l.pc = i.pc /\ l.fl = i.fl /\ l.mem = i.mem
             /\ \A r \in DOMAIN i.regs : l.regs[r] = i.regs[r]
             /\ \A r \in DOMAIN i.fregs : l.fregs[r] = i.fregs[r]

\* first disagreement, "" if none
Differs ==
  LET o == tr.obs IN
  IF f.r = "no" THEN (IF o.parse = "reject" THEN "" ELSE "accepted")
  ELSE IF "lax" \in f.fl THEN (IF o.parse = "reject" THEN "" ELSE "register-name")
  ELSE IF "may" \in f.fl /\ o.parse = "reject" THEN ""
  ELSE IF o.parse # "ok" THEN "refused"
  ELSE IF o.ins # f.ins THEN "instructions"
  ELSE IF o.data # f.data THEN "data"
  ELSE IF "may" \in f.fl THEN ""
  ELSE IF o.again # "ok" THEN "printed form refused"
  ELSE IF o.ins2 # f.ins THEN "printed form differs"
  ELSE IF Printed.r # "yes" \/ Printed.ins # f.ins THEN "printed text"
  ELSE IF tr.load.on /\ ~LoadOk THEN "load"
  ELSE ""

\* the command line tool, for a file that is no program (or does not fit)
CliRefused == tr.run.rc # 0 /\ tr.run.rc < 128 /\ tr.run.out = <<>> /\ tr.run.err

Judge == /\ ph = "judge"
         /\ IF "undef" \in f.fl THEN Say("undef", "")
            ELSE IF tr.run.on
                 THEN IF f.fl # {} THEN Say("undef", "")
                      ELSE IF CliRefused THEN Say("ok", <<"refused">>) ELSE Say("bad", <<"cli", f.r, tr.run>>)
            ELSE IF Differs = "" THEN Say("ok", <<f.r, Len(f.ins), Len(f.data)>>)
                 ELSE Say("bad", <<Differs, "spec", f.r, f.ins, f.data, "observed", tr.obs>>)

Step1 == /\ ph = "run" /\ m.st = "run" /\ n < MaxSteps
         /\ ~Undefined(m, Fetch(f.ins, m.pc))
         /\ m' = Step(f.ins, m) /\ n' = n + 1 /\ UNCHANGED <<t, ph, f>>
RunEnd == /\ ph = "run"
          /\ IF m.st = "run"
             THEN /\ n >= MaxSteps \/ Undefined(m, Fetch(f.ins, m.pc))
                  /\ Say("undef", n)
             ELSE IF tr.run.out = m.out /\ tr.run.rc < 128 /\ (m.st = "halt" => tr.run.rc = 0)
                  THEN Say("ok", <<m.st, n>>)
                  ELSE Say("bad", <<"cli", m.st, "output", m.out, "observed", tr.run>>)

TraceNext == Parse \/ Judge \/ Step1 \/ RunEnd
=============================================================================
