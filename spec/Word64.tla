------------------------------ MODULE Word64 ------------------------------
(***************************************************************************)
(* 64-bit machine words.  TLC integers are 32 bits wide, so a word is a    *)
(* little-endian sequence of four 16-bit limbs <<l0,l1,l2,l3>>, the same   *)
(* form in which the harness writes words into traces.                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bitwise

B == 65536
Zero == <<0,0,0,0>>
One  == <<1,0,0,0>>
Ones == <<65535,65535,65535,65535>>

\* A word from a (32-bit) TLC integer.
FromInt(n) == IF n >= 0 THEN <<n % B, n \div B, 0, 0>>
              ELSE LET m == -(n+1) IN <<65535 - (m % B), 65535 - (m \div B), 65535, 65535>>

IsNeg(x)  == x[4] >= 32768
IsZero(x) == x = Zero
\* Values that fit TLC integers (used for addresses and counts).
IsSmall(x) == x[3] = 0 /\ x[4] = 0 /\ x[2] < 16384
ToNat(x)   == x[1] + B * x[2]

AddC(x, y, c) ==   \* <<sum, carry out>>
  LET s1 == x[1] + y[1] + c
      s2 == x[2] + y[2] + (s1 \div B)
      s3 == x[3] + y[3] + (s2 \div B)
      s4 == x[4] + y[4] + (s3 \div B)
  IN << <<s1 % B, s2 % B, s3 % B, s4 % B>>, s4 \div B >>

WNot(x) == <<65535-x[1], 65535-x[2], 65535-x[3], 65535-x[4]>>
WAdd(x, y) == AddC(x, y, 0)[1]
WSub(x, y) == AddC(x, WNot(y), 1)[1]
WNeg(x)    == WSub(Zero, x)
Borrow(x, y) == AddC(x, WNot(y), 1)[2] = 0      \* unsigned x < y
ULess(x, y)  == Borrow(x, y)
SLess(x, y)  == IF IsNeg(x) # IsNeg(y) THEN IsNeg(x) ELSE ULess(x, y)

WAnd(x, y) == <<x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4]>>
WOr(x, y)  == <<x[1] | y[1], x[2] | y[2], x[3] | y[3], x[4] | y[4]>>
WXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>

\* Bytes, little endian.
Bytes(x) == << x[1] % 256, x[1] \div 256, x[2] % 256, x[2] \div 256,
               x[3] % 256, x[3] \div 256, x[4] % 256, x[4] \div 256 >>
FromBytes(b) == << b[1] + 256*b[2], b[3] + 256*b[4], b[5] + 256*b[6], b[7] + 256*b[8] >>

Bit(x, i) == (x[(i \div 16) + 1] \div (2^(i % 16))) % 2

\* Logical shifts by 0..63 and arithmetic right shift.
Limb(x, i) == IF i \in 1..4 THEN x[i] ELSE 0
WShl(x, n) ==
  LET q == n \div 16  r == n % 16
      L(i) == ((Limb(x, i-q) % (2^(16-r))) * (2^r)) + (Limb(x, i-q-1) \div (2^(16-r)))
  IN IF r = 0 THEN [i \in 1..4 |-> Limb(x, i-q)] ELSE [i \in 1..4 |-> L(i)]
LimbS(x, i) == IF i \in 1..4 THEN x[i] ELSE IF IsNeg(x) THEN 65535 ELSE 0
WSar(x, n) ==
  LET q == n \div 16  r == n % 16
      L(i) == (LimbS(x, i+q) \div (2^r)) + ((LimbS(x, i+q+1) % (2^r)) * (2^(16-r)))
  IN IF r = 0 THEN [i \in 1..4 |-> LimbS(x, i+q)] ELSE [i \in 1..4 |-> L(i)]

---------------------------------------------------------------------------
(* Unbounded naturals as little-endian byte sequences of any length;       *)
(* used for products, quotients and floating point significands.           *)

BAt(b, i) == IF i \in 1..Len(b) THEN b[i] ELSE 0

RECURSIVE BTrim(_)
BTrim(b) == IF Len(b) = 0 \/ b[Len(b)] # 0 THEN b ELSE BTrim(SubSeq(b, 1, Len(b)-1))

RECURSIVE BCarry(_, _, _, _)
\* Normalise a sequence of non-negative column sums into bytes.
BCarry(cols, i, c, acc) ==
  IF i > Len(cols) THEN (IF c = 0 THEN acc ELSE BCarry(cols, i+1, c \div 256, Append(acc, c % 256)))
  ELSE LET s == cols[i] + c IN BCarry(cols, i+1, s \div 256, Append(acc, s % 256))

BMax(m, n) == IF m > n THEN m ELSE n
BMin(m, n) == IF m < n THEN m ELSE n

BAdd(a, b) == BTrim(BCarry([i \in 1..BMax(Len(a), Len(b)) |-> BAt(a,i) + BAt(b,i)], 1, 0, <<>>))

RECURSIVE BSubGo(_, _, _, _, _)
BSubGo(a, b, i, br, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET d == a[i] - BAt(b,i) - br
       IN IF d < 0 THEN BSubGo(a, b, i+1, 1, Append(acc, d+256))
          ELSE BSubGo(a, b, i+1, 0, Append(acc, d))
BSub(a, b) == BTrim(BSubGo(a, b, 1, 0, <<>>))      \* a >= b

RECURSIVE ColSum(_, _, _, _, _)
ColSum(a, b, k, i, s) ==   \* sum of a[i]*b[k+1-i]
  IF i > BMin(k, Len(a)) THEN s ELSE ColSum(a, b, k, i+1, s + a[i] * BAt(b, k+1-i))
BMul(a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE BTrim(BCarry([k \in 1..(Len(a)+Len(b)-1) |-> ColSum(a, b, k, BMax(1, k+1-Len(b)), 0)], 1, 0, <<>>))

RECURSIVE BCmpGo(_, _, _)
BCmpGo(a, b, i) == IF i = 0 THEN 0
                   ELSE IF BAt(a,i) = BAt(b,i) THEN BCmpGo(a, b, i-1)
                   ELSE IF BAt(a,i) < BAt(b,i) THEN -1 ELSE 1
BCmp(a, b) == BCmpGo(a, b, BMax(Len(a), Len(b)))

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BBitLen(a) == IF Len(a) = 0 THEN 0 ELSE 8*(Len(a)-1) + BitsOf(a[Len(a)])   \* a trimmed

BZeros(n) == [i \in 1..n |-> 0]
BShl(a, n) == IF Len(a) = 0 THEN <<>>
              ELSE LET f == 2^(n % 8)
                   IN BTrim(BZeros(n \div 8) \o BCarry([i \in 1..Len(a) |-> a[i]*f], 1, 0, <<>>))
BShr(a, n) == LET q == n \div 8  r == n % 8  f == 2^r
              IN IF q >= Len(a) THEN <<>>
                 ELSE BTrim([i \in 1..(Len(a)-q) |-> (a[i+q] \div f) + ((BAt(a, i+q+1) % f) * (2^(8-r)))])
BBit(a, i) == (BAt(a, (i \div 8) + 1) \div (2^(i % 8))) % 2
BOdd(a) == Len(a) > 0 /\ a[1] % 2 = 1
\* Are any of the low n bits set?
BLowSet(a, n) == \/ \E i \in 1..BMin(n \div 8, Len(a)) : a[i] # 0
                 \/ BAt(a, (n \div 8) + 1) % (2^(n % 8)) # 0

\* Schoolbook binary long division, from the top bit of a down.
BDivMod(a, d) ==
  LET bl == BBitLen(a)
      StepBit(qr, i) ==
        LET r2 == BAdd(BShl(qr[2], 1), IF BBit(a, i) = 1 THEN <<1>> ELSE <<>>)
        IN IF BCmp(r2, d) >= 0 THEN <<BAdd(BShl(qr[1], 1), <<1>>), BSub(r2, d)>>
           ELSE <<BShl(qr[1], 1), r2>>
  IN FoldLeft(StepBit, <<<<>>, <<>>>>, [j \in 1..bl |-> bl - j])

WToB(x) == BTrim(Bytes(x))
BToW(b) == FromBytes([i \in 1..8 |-> BAt(b, i)])      \* modulo 2^64

---------------------------------------------------------------------------
WMulFull(x, y) == BMul(WToB(x), WToB(y))               \* unsigned, unbounded
WMul(x, y)     == BToW(WMulFull(x, y))
WMagnitude(x)  == IF IsNeg(x) THEN WNeg(x) ELSE x      \* |x| as unsigned word
UMulOverflow(x, y) == Len(WMulFull(x, y)) > 8
SMulOverflow(x, y) ==
  LET m == WMulFull(WMagnitude(x), WMagnitude(y))
      neg == IsNeg(x) # IsNeg(y)
      lim == <<0,0,0,0,0,0,0,128>>                      \* 2^63
  IN IF neg THEN BCmp(m, lim) > 0 ELSE BCmp(m, lim) >= 0
UDiv(x, y) == BToW(BDivMod(WToB(x), WToB(y))[1])
URem(x, y) == BToW(BDivMod(WToB(x), WToB(y))[2])
SDiv(x, y) == LET q == UDiv(WMagnitude(x), WMagnitude(y))
              IN IF IsNeg(x) # IsNeg(y) THEN WNeg(q) ELSE q
SRem(x, y) == LET r == URem(WMagnitude(x), WMagnitude(y)) IN IF IsNeg(x) THEN WNeg(r) ELSE r

\* Decimal text (sequence of character codes) of a signed word.
RECURSIVE BDivSmallGo(_, _, _, _, _)
BDivSmallGo(b, n, i, r, q) ==      \* <<quotient bytes, remainder>>, n < 2^16
  IF i = 0 THEN <<BTrim(q), r>>
  ELSE LET t == r * 256 + b[i] IN BDivSmallGo(b, n, i-1, t % n, <<t \div n>> \o q)
BDivSmall(b, n) == BDivSmallGo(b, n, Len(b), 0, <<>>)
RECURSIVE UDecGo(_, _)
UDecGo(b, acc) == IF Len(b) = 0 THEN acc
                  ELSE LET dm == BDivSmall(b, 10) IN UDecGo(dm[1], <<48 + dm[2]>> \o acc)
UDec(b) == IF Len(b) = 0 THEN <<48>> ELSE UDecGo(b, <<>>)
SDec(x) == IF IsNeg(x) THEN <<45>> \o UDec(WToB(WNeg(x))) ELSE UDec(WToB(x))
=============================================================================
