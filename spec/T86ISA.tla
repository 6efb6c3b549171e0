------------------------------ MODULE T86ISA -------------------------------
(***************************************************************************)
(* The T86 instruction set as a sequential machine: the reference that     *)
(* every execution of the pipelined VM has to agree with (docs/t86-isa.md) *)
(*                                                                         *)
(* Machine state m (a record):                                             *)
(*   pc    word, address of the next instruction                           *)
(*   regs  "R0".."Rn","SP","BP" -> word      fregs  "F0".. -> word (bits)  *)
(*   fl    flags 0..15: SF=1 ZF=2 CF=4 OF=8                                *)
(*   mem   sequence of words (cell a is mem[a+1])                          *)
(*   out   sequence of character codes printed    inp  input still unread  *)
(*   st    "run" | "halt" | "err"                                          *)
(*   ev    "" | "bkpt": the last instruction was BKPT                      *)
(*   wr    the cells written by the last instruction (sequence of indices) *)
(*                                                                         *)
(* Instruction (a record): [op, a, b]; operand: [k, ...] with k one of     *)
(*   "R" register  "I" integer immediate  "RI" register + immediate        *)
(*   "F" float register  "D" double immediate (bits)                       *)
(*   "M" memory cell [b + o + x*s], b/x a register name or "" if absent    *)
(*   "N" no operand                                                        *)
(***************************************************************************)
EXTENDS Float64, TLC

FlagBits(s, z, c, o) == (IF s THEN 1 ELSE 0) + (IF z THEN 2 ELSE 0)
                      + (IF c THEN 4 ELSE 0) + (IF o THEN 8 ELSE 0)
SF(f) == f % 2 = 1
ZF(f) == (f \div 2) % 2 = 1
CF(f) == (f \div 4) % 2 = 1
OF(f) == (f \div 8) % 2 = 1

---------------------------------------------------------------------------
(* Operand evaluation                                                      *)

RegExists(m, r) == r = "IP" \/ r \in DOMAIN m.regs
RegVal(m, r) == IF r = "IP" THEN WAdd(m.pc, One) ELSE m.regs[r]

EA(m, o) ==
  LET base == IF o.b = "" THEN o.o ELSE IF IsZero(o.o) THEN RegVal(m, o.b) ELSE WAdd(RegVal(m, o.b), o.o)
  IN IF o.x = "" THEN base
     ELSE IF o.s = One THEN WAdd(base, RegVal(m, o.x))
     ELSE WAdd(base, WMul(RegVal(m, o.x), o.s))

InRam(m, a) == IsSmall(a) /\ ToNat(a) < Len(m.mem)
Cell(a) == ToNat(a) + 1

OpNames(o) ==  \* integer registers an operand names
  CASE o.k = "R" -> {o.r}
    [] o.k = "RI" -> {o.r}
    [] o.k = "M" -> {o.b, o.x} \ {""}
    [] OTHER -> {}
OpRegsExist(m, o) == /\ \A r \in OpNames(o) : RegExists(m, r)
                     /\ o.k = "F" => o.r \in DOMAIN m.fregs

OpFaults(m, o) == o.k = "M" /\ ~InRam(m, EA(m, o))
Val(m, o) ==
  CASE o.k = "R"  -> RegVal(m, o.r)
    [] o.k = "I"  -> o.v
    [] o.k = "RI" -> WAdd(RegVal(m, o.r), o.v)
    [] o.k = "F"  -> m.fregs[o.r]
    [] o.k = "D"  -> o.v
    [] o.k = "M"  -> m.mem[Cell(EA(m, o))]

---------------------------------------------------------------------------
(* Results and flags of the arithmetic instructions                        *)

ResFlags(r, c, o) == FlagBits(IsNeg(r), IsZero(r), c, o)
AddFlags(x, y) == LET r == AddC(x, y, 0)
  IN ResFlags(r[1], r[2] = 1, IsNeg(x) = IsNeg(y) /\ IsNeg(r[1]) # IsNeg(x))
SubFlags(x, y) == LET r == WSub(x, y)
  IN ResFlags(r, Borrow(x, y), IsNeg(x) # IsNeg(y) /\ IsNeg(r) # IsNeg(x))

DivOps == {"DIV", "IDIV"}
ShiftOps == {"LSH", "RSH"}
BinOps == {"ADD","SUB","MUL","DIV","IMUL","IDIV","AND","OR","XOR","LSH","RSH"}
\* Shift amounts outside 1..63 have no documented result.
ShiftDefined(y) == IsSmall(y) /\ ToNat(y) \in 1..63

Bin(op, x, y) ==   \* <<result, flags>>
  CASE op = "ADD" -> <<WAdd(x, y), AddFlags(x, y)>>
    [] op = "SUB" -> <<WSub(x, y), SubFlags(x, y)>>
    [] op = "MUL" -> LET r == WMul(x, y) IN <<r, ResFlags(r, UMulOverflow(x, y), FALSE)>>
    [] op = "IMUL" -> LET r == WMul(x, y) IN <<r, ResFlags(r, FALSE, SMulOverflow(x, y))>>
    [] op = "DIV" -> LET r == UDiv(x, y) IN <<r, ResFlags(r, FALSE, FALSE)>>
    [] op = "IDIV" -> LET r == SDiv(x, y) IN <<r, ResFlags(r, FALSE, FALSE)>>
    [] op = "AND" -> LET r == WAnd(x, y) IN <<r, ResFlags(r, FALSE, FALSE)>>
    [] op = "OR"  -> LET r == WOr(x, y)  IN <<r, ResFlags(r, FALSE, FALSE)>>
    [] op = "XOR" -> LET r == WXor(x, y) IN <<r, ResFlags(r, FALSE, FALSE)>>
    [] op = "LSH" -> LET n == ToNat(y) r == WShl(x, n) IN <<r, ResFlags(r, Bit(x, 64-n) = 1, FALSE)>>
    [] op = "RSH" -> LET n == ToNat(y) r == WSar(x, n) IN <<r, ResFlags(r, Bit(x, n-1) = 1, FALSE)>>

UnOps == {"INC","DEC","NEG","NOT"}
Un(op, x) ==
  CASE op = "INC" -> <<WAdd(x, One), AddFlags(x, One)>>
    [] op = "DEC" -> <<WSub(x, One), SubFlags(x, One)>>
    [] op = "NEG" -> LET r == WNeg(x) IN <<r, ResFlags(r, FALSE, FALSE)>>
    [] op = "NOT" -> LET r == WNot(x) IN <<r, ResFlags(r, FALSE, FALSE)>>

FBinOps == {"FADD","FSUB","FMUL","FDIV"}
FFlags(r) == FlagBits(FIsNeg(r), FIsZero(r), FALSE, FIsInf(r))
FBin(op, x, y) ==
  LET r == CASE op = "FADD" -> FAdd(x, y) [] op = "FSUB" -> FSub(x, y)
             [] op = "FMUL" -> FMul(x, y) [] op = "FDIV" -> FDiv(x, y)
  IN <<r, FFlags(r)>>

CondJumps == {"JZ","JE","JNZ","JNE","JG","JGE","JL","JLE","JA","JAE","JB","JBE","JO","JNO","JS","JNS"}
Cond(op, f) ==
  CASE op \in {"JZ","JE"}   -> ZF(f)
    [] op \in {"JNZ","JNE"} -> ~ZF(f)
    [] op = "JG"  -> ~ZF(f) /\ SF(f) = OF(f)
    [] op = "JGE" -> SF(f) = OF(f)
    [] op = "JL"  -> SF(f) # OF(f)
    [] op = "JLE" -> ZF(f) \/ SF(f) # OF(f)
    [] op = "JA"  -> ~CF(f) /\ ~ZF(f)
    [] op = "JAE" -> ~CF(f)
    [] op = "JB"  -> CF(f)
    [] op = "JBE" -> CF(f) \/ ZF(f)
    [] op = "JO"  -> OF(f)
    [] op = "JNO" -> ~OF(f)
    [] op = "JS"  -> SF(f)
    [] op = "JNS" -> ~SF(f)

---------------------------------------------------------------------------
(* One instruction                                                         *)

Err(m) == [m EXCEPT !.st = "err", !.ev = "", !.wr = <<>>]
SetReg(m, r, v)  == [m EXCEPT !.regs[r] = v]
SetFReg(m, r, v) == [m EXCEPT !.fregs[r] = v]
SetMem(m, a, v)  == [m EXCEPT !.mem[Cell(a)] = v, !.wr = <<ToNat(a)>>]
Jump(m, a)       == [m EXCEPT !.pc = a]

\* Fetch: addresses beyond the program hold NOP.
NopIns == [op |-> "NOP", a |-> [k |-> "N"], b |-> [k |-> "N"]]
Fetch(prog, pc) == IF IsSmall(pc) /\ ToNat(pc) < Len(prog) THEN prog[ToNat(pc)+1] ELSE NopIns

Push(m, n, v) ==   \* n: machine after pc update
  LET a == WSub(m.regs["SP"], One)
  IN IF ~InRam(m, a) THEN Err(m) ELSE SetReg(SetMem(n, a, v), "SP", a)

Exec(m, i) ==
  LET n == [m EXCEPT !.pc = WAdd(m.pc, One), !.ev = "", !.wr = <<>>]
      op == i.op
      sp == m.regs["SP"]
  IN
  IF ~(OpRegsExist(m, i.a) /\ OpRegsExist(m, i.b)) THEN Err(m)
  ELSE CASE op \in {"NOP", "BREAK"} -> n
    [] op = "HALT" -> [n EXCEPT !.st = "halt"]
    [] op = "BKPT" -> [n EXCEPT !.ev = "bkpt"]
    [] op = "MOV" ->
         IF OpFaults(m, i.b) \/ OpFaults(m, i.a) THEN Err(m)
         ELSE (CASE i.a.k = "R" -> SetReg(n, i.a.r, Val(m, i.b))
                [] i.a.k = "F" -> SetFReg(n, i.a.r, Val(m, i.b))
                [] i.a.k = "M" -> SetMem(n, EA(m, i.a), Val(m, i.b)))
    [] op = "LEA" -> SetReg(n, i.a.r, EA(m, i.b))
    [] op \in BinOps ->
         IF OpFaults(m, i.b) THEN Err(m)
         ELSE LET y == Val(m, i.b)
              IN IF op \in DivOps /\ IsZero(y) THEN Err(m)
                 ELSE LET r == Bin(op, RegVal(m, i.a.r), y)
                      IN [SetReg(n, i.a.r, r[1]) EXCEPT !.fl = r[2]]
    [] op \in UnOps -> LET r == Un(op, RegVal(m, i.a.r))
                       IN [SetReg(n, i.a.r, r[1]) EXCEPT !.fl = r[2]]
    [] op \in FBinOps -> LET r == FBin(op, m.fregs[i.a.r], Val(m, i.b))
                         IN [SetFReg(n, i.a.r, r[1]) EXCEPT !.fl = r[2]]
    [] op = "CMP" -> IF OpFaults(m, i.b) THEN Err(m)
                     ELSE [n EXCEPT !.fl = SubFlags(RegVal(m, i.a.r), Val(m, i.b))]
    [] op = "FCMP" -> [n EXCEPT !.fl = FBin("FSUB", m.fregs[i.a.r], Val(m, i.b))[2]]
    [] op = "JMP" -> Jump(n, Val(m, i.a))
    [] op \in CondJumps ->
         IF OpFaults(m, i.a) THEN Err(m)
         ELSE IF Cond(op, m.fl) THEN Jump(n, Val(m, i.a)) ELSE n
    [] op = "LOOP" -> LET x == RegVal(m, i.a.r)
                          c == WSub(x, One)
                          k == [SetReg(n, i.a.r, c) EXCEPT !.fl = SubFlags(x, One)]
                      IN IF IsZero(c) THEN k ELSE Jump(k, Val(m, i.b))
    [] op = "CALL" -> LET p == Push(m, n, n.pc)
                      IN IF p.st = "err" THEN p ELSE Jump(p, Val(m, i.a))
    [] op = "RET" -> IF ~InRam(m, sp) THEN Err(m)
                     ELSE Jump(SetReg(n, "SP", WAdd(sp, One)), m.mem[Cell(sp)])
    [] op \in {"PUSH", "FPUSH"} -> Push(m, n, Val(m, i.a))
    [] op = "POP" -> IF ~InRam(m, sp) THEN Err(m)
                     ELSE SetReg(SetReg(n, "SP", WAdd(sp, One)), i.a.r, m.mem[Cell(sp)])
    [] op = "FPOP" -> IF ~InRam(m, sp) THEN Err(m)
                      ELSE SetFReg(SetReg(n, "SP", WAdd(sp, One)), i.a.r, m.mem[Cell(sp)])
    [] op = "PUTCHAR" -> [n EXCEPT !.out = Append(@, RegVal(m, i.a.r)[1] % 256)]
    [] op = "PUTNUM" -> [n EXCEPT !.out = @ \o SDec(RegVal(m, i.a.r)) \o <<10>>]
    [] op = "GETCHAR" -> [SetReg(n, i.a.r, FromInt(Head(m.inp))) EXCEPT !.inp = Tail(@)]
    [] op = "EXT" -> SetFReg(n, i.a.r, FFromInt(RegVal(m, i.b.r)))
    [] op = "NRW" -> SetReg(n, i.a.r, FToInt(m.fregs[i.b.r]))

Step(prog, m) == Exec(m, Fetch(prog, m.pc))

(* Instructions whose documented result is undefined in state m; the       *)
(* scenario generators avoid them and no property speaks about them.       *)
Undefined(m, i) ==
  \/ /\ i.op \in ShiftOps
     /\ OpRegsExist(m, i.b) /\ ~OpFaults(m, i.b) /\ ~ShiftDefined(Val(m, i.b))
  \/ i.op = "NRW" /\ i.b.r \in DOMAIN m.fregs /\ ~FFitsInt(m.fregs[i.b.r])
  \/ i.op = "GETCHAR" /\ m.inp = <<>>
  \* the bit pattern of a NaN is not specified
  \/ i.op = "MOV" /\ i.b.k = "F" /\ i.a.k # "F" /\ i.b.r \in DOMAIN m.fregs /\ FIsNaN(m.fregs[i.b.r])
  \/ i.op = "FPUSH" /\ i.a.k = "F" /\ i.a.r \in DOMAIN m.fregs /\ FIsNaN(m.fregs[i.a.r])
  \/ i.op = "POP" /\ i.a.r \in {"SP", "IP"}

---------------------------------------------------------------------------
(* Initial machine: nr/nf registers, ram cells, data placed from cell 0.   *)
RName == [i \in 0..63 |-> "R" \o ToString(i)]
FName == [i \in 0..63 |-> "F" \o ToString(i)]
InitMachine(nr, nf, ram, data, inp) ==
  LET top == FromInt(ram) IN
  [ pc |-> Zero, fl |-> 0, st |-> "run", ev |-> "", wr |-> <<>>, out |-> <<>>, inp |-> inp,
    regs |-> [r \in {RName[i] : i \in 0..(nr-1)} \cup {"SP","BP"} |->
                IF r \in {"SP","BP"} THEN top ELSE Zero],
    fregs |-> [r \in {FName[i] : i \in 0..(nf-1)} |-> Zero],
    mem |-> [c \in 1..ram |-> IF c <= Len(data) THEN data[c] ELSE Zero] ]
=============================================================================
