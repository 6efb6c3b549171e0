---------------------------- MODULE SessionModel ----------------------------
(***************************************************************************)
(* NativeImpl refines DebugSession, checked over every sequence of         *)
(* commands up to a depth on small programs; and the source of test        *)
(* sessions for the real debugger: each transition of the explored graph   *)
(* is printed as the commands that lead to it and exercise it.             *)
(*                                                                         *)
(* A record of MODELS: prog, data, nr, nf, ram, inp, lines as in           *)
(* DebugSessionTrace; cmds, the commands to choose from; depth.            *)
(***************************************************************************)
EXTENDS DebugSession, Json, IOUtils
N == INSTANCE NativeImpl

Models == ndJsonDeserialize(IOEnv.MODELS)
VARIABLES t, s, d, h
vars == <<t, s, d, h>>
md == Models[t]
NoDie == [tag |-> "none"]

Init == /\ t \in DOMAIN Models
        /\ LET m == InitMachine(md.nr, md.nf, md.ram, md.data, md.inp) IN
           /\ s = SInit(m, md.prog, md.lines, NoDie, <<>>)
           /\ d = N!DInit(N!VInit(m, md.prog))
        /\ h = <<>>

\* the session after a command: it runs to the next stop
RECURSIVE Finish(_, _)
Finish(x, k) == IF x.run.k = "no" THEN x
                ELSE IF k = 0 \/ Outside(x) THEN [x EXCEPT !.run.k = "lost"]
                ELSE Finish(Move(x), k - 1)
After(x, q) == IF q.k \in Resumes THEN Finish(Start(x, q.k), 300) ELSE Do(x, q)
Allowed(x, q) == IF q.k \in Resumes THEN ~Over(x) ELSE Legal(x, q)

LineAddrs == {md.lines[k].a : k \in DOMAIN md.lines}
Next == \E c \in DOMAIN md.cmds :
          LET q == md.cmds[c] IN
          /\ Len(h) < md.depth
          /\ Allowed(s, q)
          /\ LET s2 == After(s, q) IN
             /\ s2.run.k # "lost"
             /\ s' = s2
             /\ d' = N!DDo(d, Desugar(s, q), LineAddrs)
             /\ h' = Append(h, c)
             /\ t' = t
             /\ PrintT(<<"S", t, h'>>)
View == <<t, s, d>>

---------------------------------------------------------------------------
\* after an error of the CPU registers and IP are not specified
Machine(m, x) == IF x.ev.e = "err" THEN [mem |-> m.mem, out |-> m.out]
                 ELSE [pc |-> m.pc, regs |-> m.regs, fregs |-> m.fregs, fl |-> m.fl, mem |-> m.mem, out |-> m.out, inp |-> m.inp]
SameEvent == d.ev = s.ev
SameMachine == Machine(d.vm.m, s) = Machine(s.m, s)
\* breakpoints and watchpoints are what the user made of them
SameBreakpoints == [a \in DOMAIN d.bp |-> d.bp[a].on] = s.bp
SameWatchpoints == DOMAIN d.wp = s.wp
\* and the program is the user's, patched exactly at enabled breakpoints
SameText == N!Text(d) = s.text
ExactPatches == \A k \in DOMAIN s.text : d.vm.text[k] = IF k - 1 \in DOMAIN s.bp /\ s.bp[k - 1] THEN N!BkptIns ELSE s.text[k]
ExactWatches == {d.vm.dr[i + 1] : i \in {i \in 0..3 : N!Active(d.vm, i)}} = {FromInt(a) : a \in s.wp}
NoTrap == ~d.vm.trap
=============================================================================
