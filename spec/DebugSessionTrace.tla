------------------------- MODULE DebugSessionTrace --------------------------
(***************************************************************************)
(* Trace validation of recorded debugger sessions against DebugSession.    *)
(* Events of a record, in order:                                           *)
(*   [k |-> "cmd", q |-> command, res |-> result]                          *)
(*   [k |-> "see", regs, pc, fregs, mem, text, bp, wp, out]  all that is   *)
(*          visible at a stop                                              *)
(*          (text is not compared in records marked blind)                 *)
(*   [k |-> "fin", ret, out]                the session was terminated     *)
(***************************************************************************)
EXTENDS DebugSession, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, s, e, n, verdict
vars == <<t, s, e, n, verdict>>
tr == Traces[t]
MaxSteps == 4000

TraceInit == /\ t \in DOMAIN Traces
             /\ s = SInit(InitMachine(tr.nr, tr.nf, tr.ram, tr.data, tr.inp), tr.prog, tr.lines, tr.die, tr.order)
             /\ e = 1 /\ n = 0 /\ verdict = ""

Say(v, d) == verdict' = v /\ PrintT(<<"V", tr.id, v, ToString(d)>>) /\ UNCHANGED <<t, s, e, n>>
Open == verdict = ""
Ev == tr.ev[e]
Running == s.run.k # "no"
More == e <= Len(tr.ev)

RunStep == /\ Open /\ Running /\ ~Outside(s) /\ n < MaxSteps
           /\ s' = Move(s) /\ n' = n + 1 /\ UNCHANGED <<t, e, verdict>>

\* what is visible
Differs ==
  IF Ev.mem # s.m.mem THEN "mem"
  ELSE IF Ev.out # s.m.out THEN "out"
  ELSE IF ~tr.blind /\ Ev.text # s.text THEN "text"
  ELSE IF {<<x.a, x.on>> : x \in {Ev.bp[k] : k \in DOMAIN Ev.bp}} # {<<a, s.bp[a]>> : a \in DOMAIN s.bp} THEN "breakpoints"
  ELSE IF {Ev.wp[k] : k \in DOMAIN Ev.wp} # s.wp THEN "watchpoints"
  ELSE IF s.ev.e = "err" THEN ""
  ELSE IF Ev.pc # s.m.pc THEN "IP"
  ELSE IF Ev.regs # s.m.regs THEN "regs"
  ELSE IF DOMAIN Ev.fregs # DOMAIN s.m.fregs \/ \E r \in DOMAIN s.m.fregs : ~FSame(Ev.fregs[r], s.m.fregs[r]) THEN "fregs"
  ELSE ""
See == /\ Open /\ ~Running /\ More /\ Ev.k = "see" /\ Differs = ""
       /\ e' = e + 1 /\ UNCHANGED <<t, s, n, verdict>>

\* a command that resumes: the session runs first, then its event is compared
Resume == /\ Open /\ ~Running /\ More /\ Ev.k = "cmd" /\ Ev.q.k \in Resumes /\ ~Over(s)
          /\ s' = Start(s, Ev.q.k) /\ e' = e + 1 /\ UNCHANGED <<t, n, verdict>>
\* (the event is carried by the previous trace entry)
LastRes == tr.ev[e-1].res
EventBad == ~Running /\ e > 1 /\ tr.ev[e-1].k = "cmd" /\ tr.ev[e-1].q.k \in Resumes
            /\ (LastRes.t # "ev" \/ LastRes.e # s.ev.e \/ LastRes.a # s.ev.a)

CmdOk == IF ~Legal(s, Ev.q) THEN Ev.res.t = "error"
         ELSE Vague(s, Ev.q) \/ Answers(s, Ev.q, Ev.res)
Command == /\ Open /\ ~Running /\ More /\ Ev.k = "cmd" /\ Ev.q.k \notin Resumes /\ ~Unspecified(s, Ev.q) /\ CmdOk = TRUE
           /\ s' = (IF Legal(s, Ev.q) THEN Do(s, Ev.q) ELSE Rejected(s, Ev.q))
           /\ e' = e + 1 /\ UNCHANGED <<t, n, verdict>>

FinOk == Ev.k = "fin" /\ e = Len(tr.ev) /\ Ev.out = s.m.out /\ Ev.ret = (s.ev.e # "err")
Where == <<e, IF More THEN Ev ELSE "nothing", "spec", s.ev, s.m.pc, s.bp, s.wp>>

Judge == /\ Open
         /\ \/ Running /\ Outside(s) /\ Say("undef", e)
            \/ Running /\ n >= MaxSteps /\ ~Outside(s) /\ Say("long", e)
            \/ EventBad /\ Say("bad", <<"event", tr.ev[e-1], Where>>)
            \/ /\ ~Running /\ ~EventBad
               /\ \/ ~More /\ Say("bad", <<"no end", Where>>)
                  \/ More /\ Ev.k = "see" /\ Differs # "" /\ Say("bad", <<"visible", Differs, Where, s.m>>)
                  \/ More /\ Ev.k = "cmd" /\ Ev.q.k \in Resumes /\ Over(s) /\ Say("bad", <<"resume", Where>>)
                  \/ More /\ Ev.k = "cmd" /\ Ev.q.k \notin Resumes /\ Unspecified(s, Ev.q) /\ Say("undef", e)
                  \/ More /\ Ev.k = "cmd" /\ Ev.q.k \notin Resumes /\ ~Unspecified(s, Ev.q) /\ ~CmdOk
                       /\ Say("bad", <<"command", IF Legal(s, Ev.q) THEN Answer(s, Ev.q) ELSE "rejected", Where>>)
                  \/ More /\ Ev.k = "fin" /\ (IF FinOk THEN Say("ok", <<n, e>>) ELSE Say("bad", <<"end", Where>>))
                  \/ More /\ Ev.k = "died" /\ Say("bad", <<"died", Where>>)

TraceNext == IF Open /\ EventBad THEN Judge ELSE RunStep \/ See \/ Resume \/ Command \/ Judge
=============================================================================
