------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded dbg-cli sessions against CliSession.       *)
(* Events: [k |-> "cmd", q |-> command, r |-> what was printed],           *)
(* [k |-> "exit", code] at the end, [k |-> "died"] if it did not get there.*)
(***************************************************************************)
EXTENDS CliSession, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, c, e, n, verdict
vars == <<t, c, e, n, verdict>>
w == Traces[t]
MaxSteps == 4000

TraceInit == /\ t \in DOMAIN Traces
             /\ c = CInit(w) /\ e = 1 /\ n = 0 /\ verdict = ""

Say(v, d) == verdict' = v /\ PrintT(<<"V", w.id, v, ToString(d)>>) /\ UNCHANGED <<t, c, e, n>>
Open == verdict = ""
Ev == w.ev[e]
More == e <= Len(w.ev)
Running == c.s.run.k # "no"
Q == Ev.q
R == Ev.r

RunStep == /\ Open /\ Running /\ ~COutside(c) /\ n < MaxSteps
           /\ c' = [c EXCEPT !.s = Move(@)] /\ n' = n + 1 /\ UNCHANGED <<t, e, verdict>>

AtCmd == Open /\ ~Running /\ More /\ Ev.k = "cmd"
Resumed == e > 1 /\ w.ev[e-1].k = "cmd" /\ w.ev[e-1].q.k = "go" /\ c.base # -1
PrevBad == IF ~Running /\ Resumed THEN StopBad(w, c, w.strict, w.ev[e-1].q.c, w.ev[e-1].r) ELSE ""

Kind == KindOf(w, c, Q)
CmdOk ==
  CASE Kind = "answer" -> AnswerOk(w, c, w.strict, Q, R)
    [] Kind = "stop" -> TRUE      \* judged when the session has stopped
    [] Kind = "usage" /\ Q.k = "help" -> R.t = "usage" /\ R.of = Q.of   \* the page asked for
    [] Kind = "usage" /\ Q.k = "usage" -> R.t \in {"usage", "error"}
    [] OTHER -> R.t = Kind

Command == /\ AtCmd /\ PrevBad = "" /\ Kind # "any" /\ CmdOk = TRUE
           /\ c' = AfterCmd(w, c, Q)
           /\ e' = e + 1 /\ UNCHANGED <<t, n, verdict>>

Where == <<e, IF More THEN Ev ELSE "nothing", "spec", c.s.ev, c.s.m.pc, c.s.bp, c.s.wp>>
Judge == /\ Open
         /\ \/ Running /\ COutside(c) /\ Say("undef", e)
            \/ Running /\ n >= MaxSteps /\ ~COutside(c) /\ Say("long", e)
            \/ ~Running /\ PrevBad # "" /\ Say("bad", <<PrevBad, w.ev[e-1], Where>>)
            \/ /\ ~Running /\ PrevBad = ""
               /\ \/ ~More /\ Say("bad", <<"no end", Where>>)
                  \/ More /\ Ev.k = "cmd" /\ Kind = "any" /\ Say("undef", e)
                  \/ More /\ Ev.k = "cmd" /\ Kind # "any" /\ ~CmdOk /\ Say("bad", <<"expected", Kind, Where>>)
                  \/ More /\ Ev.k = "died" /\ Say("bad", <<"died", Where>>)
                  \/ More /\ Ev.k = "exit" /\ (IF Ev.code = 0 /\ (c.remote => Ev.out = c.s.m.out) THEN Say("ok", <<n, e>>) ELSE Say("bad", <<"exit", Where>>))
TraceNext == RunStep \/ Command \/ Judge
=============================================================================
