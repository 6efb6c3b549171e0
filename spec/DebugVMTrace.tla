--------------------------- MODULE DebugVMTrace ----------------------------
(***************************************************************************)
(* Trace validation of recorded protocol sessions against DebugVM.  A      *)
(* record: the program and configuration as in CpuTrace; ev, the recorded  *)
(* events in order:                                                        *)
(*   [k |-> "stop", out |-> output so far]          the VM announced a stop *)
(*   [k |-> "req", q |-> request, rep |-> reply]    one request             *)
(*   [k |-> "end", ret |-> Run's result, out |-> ..]                        *)
(***************************************************************************)
EXTENDS DebugVM, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, vm, e, n, verdict
vars == <<t, vm, e, n, verdict>>
tr == Traces[t]
MaxSteps == 4000

TraceInit == /\ t \in DOMAIN Traces
             /\ vm = [VInit(InitMachine(tr.nr, tr.nf, tr.ram, tr.data, tr.inp), tr.prog) EXCEPT !.phase = "announce"]
             /\ e = 1 /\ n = 0 /\ verdict = ""

Say(v, d) == verdict' = v /\ PrintT(<<"V", tr.id, v, ToString(d)>>) /\ UNCHANGED <<t, vm, e, n>>
Open == verdict = ""
Ev == tr.ev[e]
More == e <= Len(tr.ev)

\* the machine executes
Undef == vm.phase = "running" /\ Undefined(vm.m, Fetch(vm.text, vm.m.pc))
Run == /\ Open /\ vm.phase = "running" /\ ~Undef /\ n < MaxSteps
       /\ LET w == VStep(vm) IN vm' = IF w.phase = "stopped" THEN [w EXCEPT !.phase = "announce"] ELSE w
       /\ n' = n + 1
       /\ UNCHANGED <<t, e, verdict>>

StopOk == More /\ Ev.k = "stop" /\ Ev.out = vm.m.out
Announce == /\ Open /\ vm.phase = "announce" /\ StopOk
            /\ vm' = [vm EXCEPT !.phase = "stopped"] /\ e' = e + 1 /\ UNCHANGED <<t, n, verdict>>

ReqOk == More /\ Ev.k = "req" /\ (Unspecified(vm, Ev.q) \/ SameReply(Ev.rep, VReply(vm, Ev.q)))
Request == /\ Open /\ vm.phase = "stopped" /\ ReqOk
           /\ vm' = VDo(vm, Ev.q) /\ e' = e + 1 /\ UNCHANGED <<t, n, verdict>>
\* EOF has no reply
Eof == /\ Open /\ vm.phase = "stopped" /\ More /\ Ev.k = "eof"
       /\ vm' = [vm EXCEPT !.phase = "ended"] /\ e' = e + 1 /\ UNCHANGED <<t, n, verdict>>

EndOk == More /\ Ev.k = "end" /\ e = Len(tr.ev) /\ Ev.out = vm.m.out /\ Ev.ret = (vm.why # "CPU_ERROR")

Judge == /\ Open
         /\ \/ Undef /\ Say("undef", e)
            \/ vm.phase = "running" /\ n >= MaxSteps /\ Say("long", e)
            \/ vm.phase = "announce" /\ ~StopOk /\ Say("bad", <<"stop", e, IF More THEN Ev ELSE "nothing", "spec", vm.why, vm.m.pc, vm.m.out>>)
            \/ vm.phase = "stopped" /\ ~ReqOk /\ ~(More /\ Ev.k = "eof")
                 /\ Say("bad", <<"request", e, IF More THEN Ev ELSE "nothing", "spec", vm.why, vm.m.pc,
                                 IF More /\ Ev.k = "req" THEN VReply(vm, Ev.q) ELSE "-">>)
            \/ vm.phase = "ended" /\ (IF EndOk THEN Say("ok", <<n, e>>)
                                      ELSE Say("bad", <<"end", e, IF More THEN Ev ELSE "nothing", "spec", vm.why, vm.m.out>>))

TraceNext == Run \/ Announce \/ Request \/ Eof \/ Judge
=============================================================================
