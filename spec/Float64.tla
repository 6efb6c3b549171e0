----------------------------- MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic on the bit patterns of Word64: unpack to   *)
(* exact (sign, significand, exponent), compute exactly on unbounded       *)
(* naturals, round to nearest even.  NaNs are represented by one pattern.  *)
(***************************************************************************)
EXTENDS Word64

FExpBits(x) == (x[4] % 32768) \div 16
FSign(x)    == IF x[4] >= 32768 THEN 1 ELSE 0
FFrac(x)    == BTrim(Bytes(<<x[1], x[2], x[3], x[4] % 16>>))
FIsInf(x)   == FExpBits(x) = 2047 /\ Len(FFrac(x)) = 0
FIsNaN(x)   == FExpBits(x) = 2047 /\ Len(FFrac(x)) # 0
FIsZero(x)  == FExpBits(x) = 0 /\ Len(FFrac(x)) = 0
FNeg(x)     == <<x[1], x[2], x[3], (x[4] + 32768) % 65536>>
FInf(s)     == <<0, 0, 0, 32752 + 32768 * s>>
FZero(s)    == <<0, 0, 0, 32768 * s>>
FSame(x, y) == x = y \/ (FIsNaN(x) /\ FIsNaN(y))   \* equal up to the choice of NaN
FNaN        == <<0, 0, 0, 32760>>
FIsNeg(x)   == FSign(x) = 1 /\ ~FIsZero(x) /\ ~FIsNaN(x)      \* x < 0

TwoTo52 == <<0,0,0,0,0,0,16>>
\* Finite x = (-1)^s * FSig(x) * 2^FE(x)
FSig(x) == IF FExpBits(x) = 0 THEN FFrac(x) ELSE BAdd(FFrac(x), TwoTo52)
FE(x)   == (IF FExpBits(x) = 0 THEN 1 ELSE FExpBits(x)) - 1075

FPack(s, ebits, sig) ==     \* sig trimmed, < 2^53; hidden bit dropped
  LET w == BToW(sig) IN <<w[1], w[2], w[3], (w[4] % 16) + 16 * ebits + 32768 * s>>

\* Round (-1)^s * (m + d) * 2^e with 0 <= d < 1, d > 0 iff sticky.
FRound(s, m, e, sticky) ==
  IF Len(m) = 0 THEN FZero(s)
  ELSE LET bl == BBitLen(m)
           sh == BMax(bl - 53, -1074 - e)
           q0 == IF sh > 0 THEN BShr(m, sh) ELSE BShl(m, -sh)
           half == sh > 0 /\ BBit(m, sh-1) = 1
           rest == (sh > 0 /\ BLowSet(m, sh-1)) \/ sticky
           up  == half /\ (rest \/ BOdd(q0))
           q1 == IF up THEN BAdd(q0, <<1>>) ELSE q0
           e1 == e + sh
           big == BBitLen(q1) = 54
           q  == IF big THEN BShr(q1, 1) ELSE q1
           e2 == IF big THEN e1 + 1 ELSE e1
       IN IF Len(q) = 0 THEN FZero(s)
          ELSE IF BBitLen(q) < 53 THEN FPack(s, 0, q)            \* subnormal
          ELSE IF e2 + 1075 >= 2047 THEN FInf(s)
          ELSE FPack(s, e2 + 1075, q)

FAddSig(sx, mx, ex, sy, my, ey) ==      \* ex >= ey, exponent gap bounded by caller
  LET a == BShl(mx, ex - ey)
      c == BCmp(a, my)
  IN IF sx = sy THEN FRound(sx, BAdd(a, my), ey, FALSE)
     ELSE IF c = 0 THEN FZero(0)
     ELSE IF c > 0 THEN FRound(sx, BSub(a, my), ey, FALSE)
     ELSE FRound(sy, BSub(my, a), ey, FALSE)

FAdd(x, y) ==
  IF FIsNaN(x) \/ FIsNaN(y) THEN FNaN
  ELSE IF FIsInf(x) THEN (IF FIsInf(y) /\ FSign(x) # FSign(y) THEN FNaN ELSE x)
  ELSE IF FIsInf(y) THEN y
  ELSE IF FIsZero(x) /\ FIsZero(y) THEN FZero(IF FSign(x) = 1 /\ FSign(y) = 1 THEN 1 ELSE 0)
  ELSE IF FIsZero(x) THEN y
  ELSE IF FIsZero(y) THEN x
  ELSE IF FE(x) >= FE(y) THEN FAddSig(FSign(x), FSig(x), FE(x), FSign(y), FSig(y), FE(y))
  ELSE FAddSig(FSign(y), FSig(y), FE(y), FSign(x), FSig(x), FE(x))
FSub(x, y) == IF FIsNaN(y) THEN FNaN ELSE FAdd(x, FNeg(y))

FMul(x, y) ==
  LET s == (FSign(x) + FSign(y)) % 2
  IN IF FIsNaN(x) \/ FIsNaN(y) THEN FNaN
     ELSE IF FIsInf(x) \/ FIsInf(y)
          THEN (IF FIsZero(x) \/ FIsZero(y) THEN FNaN ELSE FInf(s))
     ELSE IF FIsZero(x) \/ FIsZero(y) THEN FZero(s)
     ELSE FRound(s, BMul(FSig(x), FSig(y)), FE(x) + FE(y), FALSE)

FDiv(x, y) ==
  LET s == (FSign(x) + FSign(y)) % 2
  IN IF FIsNaN(x) \/ FIsNaN(y) THEN FNaN
     ELSE IF FIsInf(x) THEN (IF FIsInf(y) THEN FNaN ELSE FInf(s))
     ELSE IF FIsInf(y) THEN FZero(s)
     ELSE IF FIsZero(y) THEN (IF FIsZero(x) THEN FNaN ELSE FInf(s))
     ELSE IF FIsZero(x) THEN FZero(s)
     ELSE LET dm == BDivMod(BShl(FSig(x), 112), FSig(y))
          IN FRound(s, dm[1], FE(x) - FE(y) - 112, Len(dm[2]) # 0)

\* int64 -> double (round to nearest even) and double -> int64 (truncate).
FFromInt(w) == IF IsZero(w) THEN FZero(0)
               ELSE FRound(IF IsNeg(w) THEN 1 ELSE 0, WToB(WMagnitude(w)), 0, FALSE)
\* Defined only when the truncated value fits in 64 signed bits.
FToInt(x) ==
  LET m == IF FE(x) >= 0 THEN BShl(FSig(x), FE(x)) ELSE BShr(FSig(x), -FE(x))
      w == BToW(m)
  IN IF FSign(x) = 1 THEN WNeg(w) ELSE w
FFitsInt(x) == ~FIsNaN(x) /\ ~FIsInf(x) /\ (FExpBits(x) < 1086)

FLess(x, y) == FIsNeg(FSub(x, y))      \* for finite operands
=============================================================================
