------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* How src/t86/cpu executes instructions: fetched along predicted paths,   *)
(* renamed, executed out of order as soon as their operands are there,     *)
(* retired in order, with a store queue and memory accesses that take      *)
(* time.  Checked against the sequential machine of T86ISA: whenever       *)
(* instructions retire or the VM stops, registers, memory and output are   *)
(* those of the sequential execution (C01, C03, C04), a single step has    *)
(* executed one instruction (C05), and what a debugger writes at a stop is *)
(* what everything executed afterwards sees, whatever is still in flight   *)
(* (C07).  Time is abstracted: any order of steps that the data            *)
(* dependences, the queue and the ports admit, so one exploration covers   *)
(* all latencies and numbers of ALUs.                                      *)
(*                                                                         *)
(* The state p of the pipeline is a record:                                *)
(*   phys  physical registers: [v value, rdy is it computed yet]           *)
(*   rat   architectural register -> physical register                     *)
(*   rob   instructions in flight, oldest first: [pc, i instruction,       *)
(*         rr rat to read from, wr rat to write to, id its store or 0,     *)
(*         mx largest store id it may read from, ld the value loaded,      *)
(*         st "wait" | "done", exc it faults, jmp predicted next address,  *)
(*         out what it will print]                                         *)
(*   spc   where to fetch next                                             *)
(*   wq    stores: [id, a address or -1, v value (<<>> if not known),      *)
(*         s "pending" until retired, then "out" until finished]           *)
(*   ram, rd (reads in flight: [a, v, done])                               *)
(*   trap, st "run" | "stop" | "halt" | "err"; out, inp                    *)
(*                                                                         *)
(* A record of MODELS: prog, nr, nf, ram, data, inp; n reservation         *)
(* stations, gates of the RAM, extra physical registers beyond those the   *)
(* names need, pokes (what a debugger may write at a stop), steps (may     *)
(* the debugger single-step?).                                             *)
(***************************************************************************)
EXTENDS T86ISA, FiniteSets, Json, IOUtils

\* The variants the real machine avoids, to show what the rest of it is for
CONSTANT Bug

Models == ndJsonDeserialize(IOEnv.MODELS)
VARIABLES t, p, s, poked
vars == <<t, p, s, poked>>
md == Models[t]

---------------------------------------------------------------------------
(* What an instruction reads and writes                                    *)
Regs == DOMAIN s.regs
FRegs == DOMAIN s.fregs
Names == Regs \cup FRegs \cup {"IP", "FL"}

OperandRegs(o) == OpNames(o) \cup (IF o.k = "F" THEN {o.r} ELSE {})
Stack == {"PUSH", "FPUSH", "CALL", "RET", "POP", "FPOP"}
Reads(i) == (((OperandRegs(i.a) \cup OperandRegs(i.b)) \ {"IP"})   \* an instruction's own IP is always known
             \ (IF (i.op \in {"MOV", "LEA", "POP", "FPOP", "GETCHAR", "EXT", "NRW"}) /\ i.a.k \in {"R", "F"} /\ i.a # i.b /\ i.a.r \notin OperandRegs(i.b) THEN {i.a.r} ELSE {}))
            \cup (IF i.op \in Stack THEN {"SP"} ELSE {})
            \cup (IF i.op \in CondJumps THEN {"FL"} ELSE {})
Writes(i) == (IF i.a.k \in {"R", "F"} /\ i.op \in BinOps \cup UnOps \cup FBinOps \cup {"MOV", "LEA", "POP", "FPOP", "LOOP", "GETCHAR", "EXT", "NRW"} THEN {i.a.r} ELSE {})
             \cup (IF i.op \in Stack THEN {"SP"} ELSE {})
             \cup (IF i.op \in BinOps \cup UnOps \cup FBinOps \cup {"CMP", "FCMP", "LOOP"} THEN {"FL"} ELSE {})
Stores(i) == (i.op = "MOV" /\ i.a.k = "M") \/ i.op \in {"PUSH", "FPUSH", "CALL"}
Jumps(i) == i.op \in CondJumps \cup {"JMP", "LOOP", "CALL", "RET"}
Target(i) == IF i.op = "RET" THEN [k |-> "N"] ELSE IF i.op = "LOOP" THEN i.b ELSE i.a
Predict(i, pc) == IF Jumps(i) /\ Target(i).k = "I" THEN Target(i).v ELSE WAdd(pc, One)

\* the machine as instruction e sees it, memory holding x everywhere
View(e, x) ==
  [ pc |-> e.pc, st |-> "run", ev |-> "", wr |-> <<>>, out |-> <<>>, inp |-> p.inp,
    fl |-> p.phys[e.rr["FL"]].v[1],
    regs |-> [r \in Regs |-> p.phys[e.rr[r]].v], fregs |-> [r \in FRegs |-> p.phys[e.rr[r]].v],
    mem |-> [c \in 1..md.ram |-> x] ]

\* the address e loads from, <<>> if it does not load
Load(e) == LET i == e.i v == View(e, Zero)
               o == IF i.op \in {"RET", "POP", "FPOP"} THEN [k |-> "M", b |-> "SP", o |-> Zero, x |-> "", s |-> One]
                    ELSE IF i.op = "LEA" THEN [k |-> "N"] ELSE IF i.b.k = "M" THEN i.b
                    ELSE IF i.a.k = "M" /\ ~Stores(i) THEN i.a ELSE [k |-> "N"]
           IN IF o.k = "M" THEN EA(v, o) ELSE <<>>

---------------------------------------------------------------------------
(* Fetch, rename and add to the reservation stations                       *)
Range2(f) == {f[x] : x \in DOMAIN f}
Used(q) == Range2(q.rat) \cup UNION {Range2(q.rob[k].rr) \cup Range2(q.rob[k].wr) : k \in DOMAIN q.rob}
Free(q, rats) == LET u == Used(q) \cup UNION {Range2(r) : r \in rats} IN {k \in DOMAIN q.phys : k \notin u}
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y

\* rename the names one after the other: <<phys, rat>>; keep: a rat still needed
RECURSIVE Rename(_, _, _)
Rename(q, ns, keep) ==
  IF ns = {} THEN q
  ELSE LET r == CHOOSE r \in ns : TRUE
           k == Lowest(Free(q, keep))
       IN Rename([q EXCEPT !.rat[r] = k, !.phys[k] = [v |-> Zero, rdy |-> FALSE]], ns \ {r}, keep)

Issue ==
  /\ p.st = "run" /\ Len(p.rob) < md.n
  /\ LET i == Fetch(md.prog, p.spc)
         q1 == Rename(p, {"IP"}, {})
         q2 == [q1 EXCEPT !.phys[q1.rat["IP"]] = [v |-> WAdd(p.spc, One), rdy |-> TRUE]]
         rr == q2.rat
         q3 == Rename(q2, Writes(i), {rr})
         nx == Predict(i, p.spc)
         id == IF Stores(i) THEN p.nid + 1 ELSE 0
         imm == i.op = "MOV" /\ i.a.k = "M" /\ i.a.b = "" /\ i.a.x = ""
         e == [pc |-> p.spc, i |-> i, rr |-> rr, wr |-> q3.rat, id |-> id, mx |-> IF id = 0 THEN p.nid ELSE id,
               ld |-> <<>>, st |-> "wait", exc |-> FALSE, jmp |-> nx, out |-> <<>>]
     IN p' = [q3 EXCEPT !.rob = Append(@, e), !.spc = nx,
                        !.nid = IF id = 0 THEN @ ELSE id,
                        !.wq = IF id = 0 THEN @
                               ELSE Append(@, [id |-> id, a |-> IF imm /\ InRam(s, i.a.o) THEN ToNat(i.a.o) ELSE -1, v |-> <<>>, s |-> "pending"])]
  /\ UNCHANGED <<t, s, poked>>

---------------------------------------------------------------------------
(* Operands                                                                *)
Ready(e) == \A r \in Reads(e.i) : p.phys[e.rr[r]].rdy
Has(x) == x # <<>>

ReadMem(k) ==   \* the k-th entry asks for the cell it needs
  LET e == p.rob[k] a == Load(e) IN
  /\ p.st = "run" /\ e.st = "wait" /\ Ready(e) /\ ~Has(e.ld) /\ Has(a) /\ InRam(s, a)
  /\ LET c == ToNat(a)
         unknown == \E w \in DOMAIN p.wq : p.wq[w].a = -1 /\ p.wq[w].id <= e.mx /\ p.wq[w].id # e.id
         prev == {w \in DOMAIN p.wq : p.wq[w].a = c /\ p.wq[w].id <= e.mx /\ p.wq[w].id # e.id}
         last == CHOOSE w \in prev : \A x \in prev : p.wq[x].id <= p.wq[w].id
         mine == {r \in p.rd : r.a = c}
     IN /\ Bug = "unknown-store" \/ ~unknown
        /\ IF prev # {}
           THEN Has(p.wq[last].v) /\ p' = [p EXCEPT !.rob[k].ld = p.wq[last].v]
           ELSE IF mine # {}
                THEN \E r \in mine : r.done /\ p' = [p EXCEPT !.rob[k].ld = r.v]
                ELSE Cardinality(p.rd) < md.gates /\ p' = [p EXCEPT !.rd = @ \cup {[a |-> c, v |-> p.ram[c + 1], done |-> FALSE]}]
  /\ UNCHANGED <<t, s, poked>>

\* reads finish, and are forgotten a little later
Tick(r) ==
  /\ p.st = "run"
  /\ p' = [p EXCEPT !.rd = (@ \ {r}) \cup (IF r.done THEN {} ELSE {[r EXCEPT !.done = TRUE]})]
  /\ UNCHANGED <<t, s, poked>>

\* A store is finished after every read of its cell that began before it: accesses
\* of the RAM take equally long, and no read of the cell begins while it lasts.
Finished(k) ==
  /\ p.st = "run" /\ p.wq[k].s = "out"
  /\ \A j \in DOMAIN p.wq : p.wq[j].s = "out" /\ p.wq[j].a = p.wq[k].a => p.wq[j].id >= p.wq[k].id
  /\ Bug = "slow-reads" \/ ~\E r \in p.rd : r.a = p.wq[k].a
  /\ p' = [p EXCEPT !.wq = SelectSeq(@, LAMBDA w : w.id # p.wq[k].id)]
  /\ UNCHANGED <<t, s, poked>>

---------------------------------------------------------------------------
(* Execution                                                               *)
FLWord(m) == FromInt(m.fl)
NewVal(m, r) == IF r \in Regs THEN m.regs[r] ELSE IF r \in FRegs THEN m.fregs[r] ELSE FLWord(m)

Execute(k) ==
  LET e == p.rob[k] a == Load(e) IN
  /\ p.st = "run" /\ e.st = "wait" /\ Ready(e) /\ (Has(a) /\ InRam(s, a) => Has(e.ld))
  /\ IF e.i.op = "GETCHAR" THEN p' = [p EXCEPT !.rob[k].st = "done"]     \* reads its character when it retires
     ELSE
     LET m == Exec(View(e, IF Has(e.ld) THEN e.ld ELSE Zero), e.i)
         jumped == Jumps(e.i) /\ m.st # "err"
         w == Writes(e.i)
         q == [p EXCEPT !.rob[k].st = "done", !.rob[k].exc = m.st = "err", !.rob[k].out = m.out,
                        !.phys = [x \in DOMAIN p.phys |->
                          IF \E r \in w : e.wr[r] = x THEN [v |-> IF m.st = "err" THEN Zero ELSE NewVal(m, CHOOSE r \in w : e.wr[r] = x), rdy |-> TRUE]
                          ELSE IF jumped /\ x = e.wr["IP"] THEN [v |-> m.pc, rdy |-> TRUE]
                          ELSE p.phys[x]]]
     IN p' = IF e.id = 0 \/ m.st = "err" THEN q
             ELSE [q EXCEPT !.wq = [x \in DOMAIN p.wq |-> IF p.wq[x].id = e.id THEN [p.wq[x] EXCEPT !.a = m.wr[1], !.v = m.mem[m.wr[1] + 1]] ELSE p.wq[x]]]
  /\ UNCHANGED <<t, s, poked>>

---------------------------------------------------------------------------
(* Retirement                                                              *)
\* everything younger than the entry with rat wr is thrown away
Unroll(q, wr) == [q EXCEPT !.rob = <<>>, !.rat = IF Bug = "rat-kept" THEN @ ELSE wr, !.spc = q.phys[wr["IP"]].v,
                           !.wq = IF Bug = "stores-kept" THEN @ ELSE SelectSeq(@, LAMBDA w : w.s = "out")]

Retire ==
  /\ p.st = "run" /\ p.rob # <<>> /\ Head(p.rob).st = "done"
  /\ LET e == Head(p.rob)
         n == Step(md.prog, s)
         q0 == [p EXCEPT !.rob = Tail(@)]
         q1 == IF e.id = 0 THEN q0
               ELSE LET w == CHOOSE w \in DOMAIN p.wq : p.wq[w].id = e.id
                    IN [q0 EXCEPT !.wq[w].s = "out", !.ram[p.wq[w].a + 1] = p.wq[w].v]
         q2 == [q1 EXCEPT !.out = @ \o e.out]
         q3 == IF e.i.op = "GETCHAR"
               THEN [q2 EXCEPT !.phys[e.wr[e.i.a.r]] = [v |-> FromInt(Head(p.inp)), rdy |-> TRUE], !.inp = Tail(@)] ELSE q2
         missed == Jumps(e.i) /\ p.phys[e.wr["IP"]].v # e.jmp
         q4 == IF missed /\ Bug # "no-check" THEN Unroll(q3, e.wr) ELSE q3
         stop == e.i.op \in {"HALT", "BKPT"} \/ p.trap
     IN /\ p' = IF e.exc THEN [q0 EXCEPT !.st = "err"]
                ELSE IF stop THEN [Unroll(q4, e.wr) EXCEPT !.st = IF e.i.op = "HALT" THEN "halt" ELSE "stop", !.trap = FALSE]
                ELSE q4
        /\ s' = n
        /\ poked' = IF stop THEN FALSE ELSE poked
  /\ UNCHANGED t

---------------------------------------------------------------------------
(* The debugger                                                            *)
Poke(x) ==
  /\ p.st = "stop" /\ ~poked
  /\ poked' = TRUE
  /\ CASE x.k = "reg" -> /\ p' = [p EXCEPT !.phys[p.rat[x.r]].v = x.v]
                         /\ s' = IF x.r \in Regs THEN SetReg(s, x.r, x.v) ELSE SetFReg(s, x.r, x.v)
       [] x.k = "mem" -> LET c == x.a IN
                         /\ p' = [p EXCEPT !.ram[c + 1] = x.v,
                                           !.rd = IF Bug = "poke-read" THEN @ ELSE {r \in @ : r.a # c},
                                           !.wq = IF Bug = "poke-store" THEN @ ELSE SelectSeq(@, LAMBDA w : w.a # c)]
                         /\ s' = [s EXCEPT !.mem[c + 1] = x.v]
       [] x.k = "ip" -> /\ p' = [p EXCEPT !.phys[p.rat["IP"]].v = x.v, !.spc = x.v]
                        /\ s' = [s EXCEPT !.pc = x.v]
  /\ UNCHANGED t

Resume == /\ p.st = "stop"
          /\ \E tr \in IF md.steps THEN BOOLEAN ELSE {FALSE} : p' = [p EXCEPT !.st = "run", !.trap = tr]
          /\ UNCHANGED <<t, s, poked>>

---------------------------------------------------------------------------
Init ==
  /\ t \in DOMAIN Models
  /\ s = InitMachine(md.nr, md.nf, md.ram, md.data, md.inp)
  /\ poked = FALSE
  /\ LET order == SetToSeq(Names)
         pos(r) == CHOOSE k \in DOMAIN order : order[k] = r
         ini(r) == IF r \in Regs THEN s.regs[r] ELSE Zero
     IN p = [ phys |-> [k \in 1..(Len(order) + md.extra) |-> IF k <= Len(order) THEN [v |-> ini(order[k]), rdy |-> TRUE] ELSE [v |-> Zero, rdy |-> TRUE]],
              rat |-> [r \in Names |-> pos(r)], rob |-> <<>>, spc |-> Zero, wq |-> <<>>, nid |-> 0,
              ram |-> s.mem, rd |-> {}, trap |-> FALSE, st |-> "stop", out |-> <<>>, inp |-> s.inp ]

Next == \/ Issue \/ Retire \/ Resume
        \/ \E k \in DOMAIN p.rob : ReadMem(k) \/ Execute(k)
        \/ \E r \in p.rd : Tick(r)
        \/ \E k \in DOMAIN p.wq : Finished(k)
        \/ \E k \in DOMAIN md.pokes : Poke(md.pokes[k])
        \/ p.st \in {"halt", "err"} /\ UNCHANGED vars

\* finitely many store ids (they have no other meaning than their order)
View2 == LET ids == {p.wq[k].id : k \in DOMAIN p.wq} \cup {p.rob[k].mx : k \in DOMAIN p.rob} \cup {p.rob[k].id : k \in DOMAIN p.rob}
             rank(x) == IF x = 0 THEN 0 ELSE Cardinality({y \in ids : y <= x})
         IN <<t, s, poked, [p EXCEPT !.nid = 0, !.wq = [k \in DOMAIN @ |-> [@[k] EXCEPT !.id = rank(@)]],
                                     !.rob = [k \in DOMAIN @ |-> [@[k] EXCEPT !.id = rank(@), !.mx = rank(@)]]]>>

---------------------------------------------------------------------------
\* the registers that retired instructions have left
Committed == IF p.rob = <<>> THEN p.rat ELSE [Head(p.rob).rr EXCEPT !["IP"] = p.rat["IP"]]
SameRegisters == p.st # "err" =>
  /\ \A r \in Regs : LET x == p.phys[Committed[r]] IN x.rdy /\ x.v = s.regs[r]
  /\ \A r \in FRegs : LET x == p.phys[Committed[r]] IN x.rdy /\ x.v = s.fregs[r]
  /\ LET x == p.phys[Committed["FL"]] IN x.rdy /\ x.v[1] = s.fl
SameMemory == p.ram = s.mem
SameOutput == p.out = s.out /\ (p.st # "err" => p.inp = s.inp)
SamePath == p.st = "err" \/ IF p.rob = <<>> THEN p.spc = s.pc /\ p.phys[p.rat["IP"]].v = s.pc ELSE Head(p.rob).pc = s.pc
SameEnd == (p.st = "err") = (s.st = "err") /\ (p.st = "halt") = (s.st = "halt")
\* an instruction never waits for a physical register
Enough == p.st = "run" /\ Len(p.rob) < md.n => Cardinality(Free(p, {})) >= 6
=============================================================================
