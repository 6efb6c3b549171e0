-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* Program files (docs/t86.md, docs/t86-isa.md): which texts are programs, *)
(* and the instructions and data each of them denotes.                     *)
(*                                                                         *)
(* File(ts, floats) for the tokens of a file is a record                   *)
(*   r     "yes" | "no"                                                    *)
(*   ins   the instructions of the text sections in order (form of T86ISA) *)
(*   data  the data cells in order                                         *)
(*   fl    "may": uses a form the documents disagree about (either reject  *)
(*         it or give it this meaning); "undef": not decided here;         *)
(*         "lax": rejected because of a malformed register name            *)
(* floats gives the double (bits) each decimal text denotes.               *)
(***************************************************************************)
EXTENDS Lexer, T86ISA

No(fl) == [ok |-> FALSE, fl |-> fl]
Negate(neg, w) == IF neg THEN WNeg(w) ELSE w

\* [-] number
ImmAt(ts, i) ==
  IF Kind(ts, i) = "num" THEN [ok |-> TRUE, v |-> ts[i].v, nx |-> i + 1]
  ELSE IF Kind(ts, i) = "-" /\ Kind(ts, i + 1) = "num" THEN [ok |-> TRUE, v |-> WNeg(ts[i+1].v), nx |-> i + 2]
  ELSE [ok |-> FALSE]

\* numbers beyond 32 bits may be refused
Wide(w) == ~(w[3] = 0 /\ w[4] = 0 /\ w[2] < 32768)
ImmFl(ts, i) == LET j == IF Kind(ts, i) = "-" THEN i + 1 ELSE i IN IF Wide(ts[j].v) THEN {"may"} ELSE {}

Special == {"BP", "SP", "IP"}
IsR(tok) == tok.k = "id" /\ (tok.s \in Special \/ (tok.v.c = "R" /\ tok.v.d))
LooksR(tok) == tok.k = "id" /\ tok.v.c = "R"
IsF(tok) == tok.k = "id" /\ tok.v.c = "F" /\ tok.v.d
LooksF(tok) == tok.k = "id" /\ tok.v.c = "F"
RegFl(tok) == IF tok.s \in Special THEN {}
              ELSE IF ~tok.v.d THEN {"lax"}
              ELSE IF (tok.v.z /\ tok.v.n > 2) \/ tok.v.n > 7 THEN {"undef"} ELSE {}
RegAt(ts, i) == i <= Len(ts) /\ (IsR(ts[i]) \/ LooksR(ts[i]))

Mem(b, o, x, s) ==   \* [R * 1] is [R]
  IF b = "" /\ x # "" /\ s = One THEN [k |-> "M", b |-> x, o |-> o, x |-> "", s |-> One]
  ELSE [k |-> "M", b |-> b, o |-> o, x |-> x, s |-> s]
Got(sh, o, nx, fl) == [ok |-> TRUE, sh |-> sh, o |-> o, nx |-> nx, fl |-> fl]

Closed(ts, r) == IF Kind(ts, r.nx) = "]" THEN [r EXCEPT !.nx = @ + 1] ELSE No({})

\* "+ R" or "+ R * i" at i, after [b + o
Index(ts, b, o, off, i, fl) ==
  LET x == ts[i+1].s
      fx == fl \cup RegFl(ts[i+1])
      n == ImmAt(ts, i + 3)
  IN IF Kind(ts, i + 2) = "*"
     THEN IF n.ok THEN Closed(ts, Got(IF off THEN "MRIRS" ELSE "MRRS", Mem(b, o, x, n.v), n.nx, fx \cup ImmFl(ts, i + 3)))
          ELSE No({})
     ELSE Closed(ts, Got(IF off THEN "MRIR" ELSE "MRR", Mem(b, o, x, One), i + 2, fx))

MemAt(ts, i) ==   \* after "["
  IF ImmAt(ts, i).ok
  THEN LET n == ImmAt(ts, i) IN Closed(ts, Got("MI", Mem("", n.v, "", One), n.nx, ImmFl(ts, i)))
  ELSE IF ~RegAt(ts, i) THEN No({})
  ELSE
  LET b == ts[i].s
      fb == RegFl(ts[i])
      sg == Kind(ts, i + 1)
      n == ImmAt(ts, i + 2)
  IN CASE sg = "*" -> IF n.ok THEN Closed(ts, Got("MRS", Mem("", Zero, b, n.v), n.nx, fb \cup ImmFl(ts, i + 2))) ELSE No({})
       [] sg \in {"+", "-"} /\ n.ok ->
            LET o == Negate(sg = "-", n.v)
                fo == fb \cup ImmFl(ts, i + 2)
            IN IF Kind(ts, n.nx) = "+"
               THEN IF RegAt(ts, n.nx + 1) THEN Index(ts, b, o, TRUE, n.nx, fo) ELSE No({})
               ELSE Closed(ts, Got("MRI", Mem(b, o, "", One), n.nx, fo))
       [] sg = "+" /\ RegAt(ts, i + 2) -> Index(ts, b, Zero, FALSE, i + 1, fb)
       [] sg \in {"+", "-", "*"} -> No({})
       [] OTHER -> Closed(ts, Got("MR", Mem(b, Zero, "", One), i + 1, fb))

FltAt(ts, i) == IF Kind(ts, i) = "-" THEN i + 1 ELSE i
DNeg(w) == <<w[1], w[2], w[3], IF w[4] >= 32768 THEN w[4] - 32768 ELSE w[4] + 32768>>
OperandAt(ts, i, floats) ==
  CASE Kind(ts, i) = "[" -> MemAt(ts, i + 1)
    [] ImmAt(ts, i).ok -> LET n == ImmAt(ts, i) IN Got("I", [k |-> "I", v |-> n.v], n.nx, ImmFl(ts, i))
    [] Kind(ts, FltAt(ts, i)) = "flt" ->
         LET j == FltAt(ts, i) IN Got("D", [k |-> "D", v |-> IF j > i THEN DNeg(floats[ts[j].s]) ELSE floats[ts[j].s]], j + 1, {})
    [] RegAt(ts, i) ->
         LET r == ts[i].s
             f == RegFl(ts[i])
             sg == Kind(ts, i + 1)
             n == ImmAt(ts, i + 2)
         IN IF sg \in {"+", "-"}
            THEN IF n.ok THEN Got("RI", [k |-> "RI", r |-> r, v |-> Negate(sg = "-", n.v)], n.nx, f \cup ImmFl(ts, i + 2)) ELSE No({})
            ELSE Got("R", [k |-> "R", r |-> r], i + 1, f)
    [] i <= Len(ts) /\ LooksF(ts[i]) -> Got("F", [k |-> "F", r |-> ts[i].s], i + 1, RegFl(ts[i]))
    [] OTHER -> No({})

---------------------------------------------------------------------------
(* The documented operand forms                                            *)
Arith == {"ADD","SUB","MUL","DIV","IMUL","IDIV","AND","OR","XOR","LSH","RSH"}
FArith == {"FADD","FSUB","FMUL","FDIV","FCMP"}
CondJ == {"JZ","JNZ","JE","JNE","JG","JGE","JL","JLE","JA","JAE","JB","JBE","JO","JNO","JS","JNS"}
Unary == {"INC","DEC","NEG","NOT","POP","PUTCHAR","PUTNUM","GETCHAR"}
Nullary == {"HALT","NOP","BKPT","BREAK","RET"}
Simple == {"R","I","MI","MR","MRI"}
Full == {"MI","MR","MRI","MRS","MRR","MRRS","MRIR","MRIRS"}

One1(op) ==   \* forms of the only operand
  CASE op \in Unary -> {"R"}
    [] op \in {"JMP","CALL","PUSH"} -> {"R","I"}
    [] op \in CondJ -> Simple
    [] op = "FPUSH" -> {"F","D"}
    [] op = "FPOP" -> {"F"}
    [] OTHER -> {}
Second(op, d) ==   \* forms of the second operand, d the form of the first
  CASE op \in Arith /\ d = "R" -> Simple \cup {"RI"}
    [] op = "CMP" /\ d = "R" -> Simple
    [] op = "LOOP" /\ d = "R" -> {"R","I"}
    [] op \in FArith /\ d = "F" -> {"F","D"}
    [] op = "EXT" /\ d = "F" -> {"R"}
    [] op = "NRW" /\ d = "R" -> {"F"}
    [] op = "LEA" /\ d = "R" -> {"MRI","MRR","MRRS","MRIR","MRIRS"}
    [] op = "MOV" /\ d = "R" -> {"R","I","F"} \cup Full
    [] op = "MOV" /\ d = "F" -> {"D","F","R","MI","MR"}
    [] op = "MOV" /\ d \in Full -> {"R","F","I"}
    [] OTHER -> {}
\* in the tables but refused by the reference, or the other way round
Disputed(op, d, s) == (op = "MOV" /\ d = "R" /\ s = "RI") \/ (op = "LEA" /\ d = "R" /\ s = "MRS")
Ops2 == Arith \cup FArith \cup {"CMP","LOOP","EXT","NRW","LEA","MOV"}
Ops1 == Unary \cup CondJ \cup {"JMP","CALL","PUSH","FPUSH","FPOP"}
NoOp == [k |-> "N"]

InsAt(ts, i0, floats) ==
  LET i == IF Kind(ts, i0) = "num" THEN i0 + 1 ELSE i0
      fa == IF i > i0 /\ Wide(ts[i0].v) THEN {"may"} ELSE {}
      op == ts[i].s
      a == OperandAt(ts, i + 1, floats)
      b == OperandAt(ts, a.nx + 1, floats)
      Done(x, y, nx, fl) == [ok |-> TRUE, ins |-> [op |-> op, a |-> x, b |-> y], nx |-> nx, fl |-> fl \cup fa]
  IN IF Kind(ts, i) # "id" THEN No({})
     ELSE IF op \in Nullary THEN Done(NoOp, NoOp, i + 1, {})
     ELSE IF op \notin Ops1 \cup Ops2 THEN No({})
     ELSE IF ~a.ok THEN No(a.fl)
     ELSE IF op \in Ops1 THEN (IF a.sh \in One1(op) THEN Done(a.o, NoOp, a.nx, a.fl) ELSE No({}))
     ELSE IF Kind(ts, a.nx) # "," THEN No({})
     ELSE IF ~b.ok THEN No(b.fl)
     ELSE IF b.sh \in Second(op, a.sh) THEN Done(a.o, b.o, b.nx, a.fl \cup b.fl)
     ELSE IF Disputed(op, a.sh, b.sh) THEN Done(a.o, b.o, b.nx, a.fl \cup b.fl \cup {"may"})
     ELSE No({})

---------------------------------------------------------------------------
(* Sections                                                                *)
Reject(acc, fl) == [acc EXCEPT !.r = "no", !.fl = @ \cup fl]

RECURSIVE TextAt(_, _, _, _)
TextAt(ts, i, floats, acc) ==
  IF Kind(ts, i) \notin {"num", "id"} THEN [acc EXCEPT !.nx = i]
  ELSE LET x == InsAt(ts, i, floats)
       IN IF ~x.ok THEN Reject(acc, x.fl)
          ELSE TextAt(ts, x.nx, floats, [acc EXCEPT !.ins = Append(@, x.ins), !.fl = @ \cup x.fl])

RECURSIVE DataAt(_, _, _)
DataAt(ts, i, acc) ==
  IF Kind(ts, i) = "str"
  THEN DataAt(ts, i + 1, [acc EXCEPT !.data = @ \o [j \in 1..Len(ts[i].v) |-> FromInt(ts[i].v[j])] \o <<Zero>>])
  ELSE IF ImmAt(ts, i).ok
  THEN LET n == ImmAt(ts, i) IN DataAt(ts, n.nx, [acc EXCEPT !.data = Append(@, n.v), !.fl = @ \cup ImmFl(ts, i)])
  ELSE [acc EXCEPT !.nx = i]

\* the next section after a section that is not text or data
Skip(ts, i) ==
  LET s == {j \in i..Len(ts) : ts[j].k \in {".", "bad"}}
  IN IF s = {} THEN Len(ts) + 1 ELSE CHOOSE j \in s : \A q \in s : j <= q

RECURSIVE Sections(_, _, _, _)
Sections(ts, i, floats, acc) ==   \* at i a section starts or the file ends
  IF Kind(ts, i) = "end" THEN acc
  ELSE IF Kind(ts, i) # "." \/ Kind(ts, i + 1) # "id" THEN Reject(acc, {})
  ELSE LET name == ts[i+1].s
       IN IF name = "debug_source" THEN acc
          ELSE IF name = "text" THEN
            LET a == TextAt(ts, i + 2, floats, acc) IN IF a.r = "no" THEN a ELSE Sections(ts, a.nx, floats, a)
          ELSE IF name = "data" THEN LET a == DataAt(ts, i + 2, acc) IN Sections(ts, a.nx, floats, a)
          ELSE LET j == Skip(ts, i + 2)
               IN IF Kind(ts, j) = "bad" \/ \E q \in (i + 2)..(j - 1) : ts[q].k = "num" /\ Wide(ts[q].v) THEN Reject(acc, {"undef"}) ELSE Sections(ts, j, floats, acc)

File(ts, floats) ==
  LET acc == [r |-> "yes", ins |-> <<>>, data |-> <<>>, fl |-> {}, nx |-> 1]
  IN IF Kind(ts, 1) # "." THEN Reject(acc, {}) ELSE Sections(ts, 1, floats, acc)
=============================================================================
