------------------------------ MODULE CliModel ------------------------------
(***************************************************************************)
(* Sessions of the command line (CliSession) explored over every sequence  *)
(* of commands up to a depth on small programs.  Checked: settings are     *)
(* changed by the commands that set them and by nothing else, over re-runs *)
(* and program ends; commands without a program, and refused ones, change  *)
(* nothing (C20).  Each transition is printed as the commands that lead to *)
(* it, to be replayed into the real debugger.                              *)
(*                                                                         *)
(* A record of MODELS: a program as in CliTrace; cmds, the commands to     *)
(* choose from; depth.                                                     *)
(***************************************************************************)
EXTENDS CliSession, Json, IOUtils

Models == ndJsonDeserialize(IOEnv.MODELS)
VARIABLES t, c, l, h
vars == <<t, c, l, h>>
md == Models[t]
NoCmd == [k |-> "none"]

Init == t \in DOMAIN Models /\ c = CInit(md) /\ l = NoCmd /\ h = <<>>

RECURSIVE Finish(_, _)
Finish(x, k) == IF x.s.run.k = "no" THEN [c |-> x, ok |-> TRUE]
                ELSE IF k = 0 \/ COutside(x) THEN [c |-> x, ok |-> FALSE]
                ELSE Finish([x EXCEPT !.s = Move(@)], k - 1)

Next == \E i \in DOMAIN md.cmds :
          LET q == md.cmds[i] IN
          /\ Len(h) < md.depth
          /\ (KindOf(md, c, q) # "any") = TRUE
          /\ LET f == Finish(AfterCmd(md, c, q), 300) IN
             /\ f.ok
             /\ c' = f.c
             /\ l' = q /\ t' = t /\ h' = Append(h, i)
             /\ PrintT(<<"S", t, h'>>)
View == <<t, c>>

---------------------------------------------------------------------------
Sets(q) == q.k \in {"nat", "loc"}
Same == /\ c'.s.bp = c.s.bp /\ c'.s.wp = c.s.wp
\* settings stay in force until the user changes them
Keeps == [][~Sets(l') => Same]_vars
\* a command that is refused, or has no program to act on, changes nothing
Refuses == [][LET k == KindOf(md, c, l') IN
                (k \in {"inactive", "error", "usage"} /\ l'.k # "expr") => Base(c') = Base(c)]_vars
\* a run begins with the program as it is in the file, and the user's breakpoints
Fresh == [][(l'.k = "run" /\ KindOf(md, c, l') = "started") =>
              /\ c'.s.text = md.prog /\ c'.s.m.pc = FromInt(0) /\ c'.s.m.out = <<>> /\ ~Fin(c')]_vars
=============================================================================
