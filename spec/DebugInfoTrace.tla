--------------------------- MODULE DebugInfoTrace ---------------------------
(***************************************************************************)
(* Trace validation of the debug-information reader against DebugInfo.     *)
(* Records: id, text, obs [parse "ok" | "reject" | other = crash, hasline, *)
(* line, hasinfo, info, hassrc, src].                                      *)
(***************************************************************************)
EXTENDS DebugInfo, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, f
tr == Traces[t]
TraceInit == t \in DOMAIN Traces /\ f = <<>>
Read == f = <<>> /\ f' = <<Info(tr.text), "">> /\ UNCHANGED t

Differs(s) ==
  LET o == tr.obs IN
  IF s.r = "no" THEN (IF o.parse = "reject" THEN "" ELSE "accepted")
  ELSE IF "may" \in s.fl /\ o.parse = "reject" THEN ""
  ELSE IF o.parse # "ok" THEN "refused"
  ELSE IF o.hasline # s.hasline \/ o.hasinfo # s.hasinfo \/ o.hassrc # s.hassrc THEN "sections"
  ELSE IF Functional(s.line) /\ Range(o.line) # LineFun(s.line) THEN "line table"
  ELSE IF o.info # s.info THEN "entries"
  ELSE IF o.src # s.src THEN "source"
  ELSE ""
Judge == /\ f # <<>> /\ f[2] = ""
         /\ LET s == f[1]
                d == Differs(s)
                v == IF "undef" \in s.fl /\ tr.obs.parse \in {"ok", "reject"} THEN "undef" ELSE IF d = "" THEN "ok" ELSE "bad"
            IN f' = <<f[1], v>> /\ PrintT(<<"V", tr.id, v, ToString(IF v = "bad" THEN <<d, s, tr.obs>> ELSE <<s.r, s.fl>>)>>)
         /\ UNCHANGED t
TraceNext == Read \/ Judge
=============================================================================
