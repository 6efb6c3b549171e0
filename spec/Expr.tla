-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Debugger expressions (src/debugger/Source/Expression.cpp, Parser.cpp):  *)
(* the grammar, the values, and evaluation on the current machine state.   *)
(***************************************************************************)
EXTENDS SourceInfo

---------------------------------------------------------------------------
\* Grammar.  A text is a sequence of tokens [k, v]: "num", "float", "id",
\* the operator itself, or "bad" for anything that is no token.
\*   assign = equality ["=" assign]      equality = logical {== != logical}
\*   logical = comparison {&& || ...}    comparison = shifts {< <= >= > ..}
\*   shifts = bits {<< >> bits}          bits = term {| & ^ term}
\*   term = factor {+ - factor}          factor = unary {* / % unary}
\*   unary = {* - !} postfix             postfix = primary {[ expr ], ->, .}
\*   primary = number | float | name | ( expr ) | $ number
Level == << {"="}, {"==", "!="}, {"&&", "||"}, {"<", "<=", ">=", ">"}, {"<<", ">>"}, {"|", "&", "^"}, {"+", "-"}, {"*", "/", "%"} >>
Tok(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
No == [ok |-> FALSE]
Yes(e, i) == [ok |-> TRUE, e |-> e, i |-> i]

RECURSIVE Parse(_, _, _), ParseMore(_, _, _), ParseUnary(_, _), ParsePostfix(_, _), ParsePrimary(_, _)
Parse(lv, ts, i) ==
  IF lv = 9 THEN ParseUnary(ts, i)
  ELSE LET l == Parse(lv + 1, ts, i) IN
       IF ~l.ok THEN No
       ELSE IF lv > 1 THEN ParseMore(lv, ts, l)
       ELSE IF Tok(ts, l.i) # "=" THEN l
       ELSE LET r == Parse(1, ts, l.i + 1) IN
            IF r.ok THEN Yes([k |-> "bin", op |-> "=", l |-> l.e, r |-> r.e], r.i) ELSE No
ParseMore(lv, ts, l) ==
  IF Tok(ts, l.i) \notin Level[lv] THEN l
  ELSE LET r == Parse(lv + 1, ts, l.i + 1) IN
       IF r.ok THEN ParseMore(lv, ts, Yes([k |-> "bin", op |-> ts[l.i].k, l |-> l.e, r |-> r.e], r.i)) ELSE No
ParseUnary(ts, i) ==
  IF Tok(ts, i) \notin {"*", "-", "!"}
  THEN LET p == ParsePrimary(ts, i) IN IF p.ok THEN ParsePostfix(ts, p) ELSE No
  ELSE LET e == ParseUnary(ts, i + 1) IN
       IF e.ok THEN Yes([k |-> "un", op |-> ts[i].k, e |-> e.e], e.i) ELSE No
ParsePostfix(ts, p) ==
  CASE Tok(ts, p.i) = "[" ->
         LET x == Parse(1, ts, p.i + 1) IN
         IF x.ok /\ Tok(ts, x.i) = "]" THEN ParsePostfix(ts, Yes([k |-> "idx", a |-> p.e, x |-> x.e], x.i + 1)) ELSE No
    [] Tok(ts, p.i) \in {".", "->"} ->
         IF Tok(ts, p.i + 1) = "id"
         THEN ParsePostfix(ts, Yes([k |-> IF ts[p.i].k = "." THEN "mem" ELSE "arrow", e |-> p.e, n |-> ts[p.i + 1].v], p.i + 2)) ELSE No
    [] OTHER -> p
ParsePrimary(ts, i) ==
  CASE Tok(ts, i) \in {"num", "float", "id"} -> Yes([k |-> ts[i].k, v |-> ts[i].v], i + 1)
    [] Tok(ts, i) = "(" -> LET e == Parse(1, ts, i + 1) IN
                           IF e.ok /\ Tok(ts, e.i) = ")" THEN Yes(e.e, e.i + 1) ELSE No
    [] Tok(ts, i) = "$" -> IF Tok(ts, i + 1) = "num" THEN Yes([k |-> "old", v |-> ts[i + 1].v], i + 2) ELSE No
    [] OTHER -> No
ParseText(ts) ==
  IF \E i \in DOMAIN ts : ts[i].k = "bad" THEN No
  ELSE LET p == Parse(1, ts, 1) IN IF p.ok /\ p.i = Len(ts) + 1 THEN p ELSE No

---------------------------------------------------------------------------
(* Values [t, v, loc, ...]: int, float (its bits), char (sign extended),   *)
(* ptr (to: type id), struct (name, m: members by name), arr (of, m: the   *)
(* elements, v: address).  loc is where the value is, or NoLoc.            *)
(* Results: [st |-> "ok" | "err" | "undef", v, m]                          *)
IntV(w) == [t |-> "int", v |-> w, loc |-> NoLoc]
BoolV(b) == IntV(IF b THEN One ELSE Zero)
FloatV(w) == [t |-> "float", v |-> w, loc |-> NoLoc]
SignedByte(w) == LET b == w[1] % 256 IN FromInt(IF b >= 128 THEN b - 256 ELSE b)
PtrV(to, w) == [t |-> "ptr", to |-> to, v |-> w, loc |-> NoLoc]

Res(v, m) == [st |-> "ok", v |-> v, m |-> m]
ErrR(m) == [st |-> "err", m |-> m]
UndefR(m) == [st |-> "undef", m |-> m]
FromOk(v) == [ok |-> TRUE, v |-> v]

Readable(m, l) == IF l.k = "r" THEN KnownReg(m, l.r) ELSE InRam(m, l.a)
Raw(m, l) == IF l.k = "r" THEN RegNow(m, l.r) ELSE m.mem[Cell(l.a)]
Shifted(m, l, n) == MemLoc(WAdd(Number(m, l), FromInt(n)))

RECURSIVE ReadAs(_, _, _, _)      \* value of type ty at location l: [ok, v]
ReadAs(types, m, l, ty) ==
  IF ty \notin DOMAIN types THEN Bad
  ELSE LET c == types[ty] IN
  CASE c.tag = "prim" ->
         IF ~Readable(m, l) \/ c.name = "unsigned" THEN Bad
         ELSE FromOk([t |-> c.name, v |-> IF c.name = "char" THEN SignedByte(Raw(m, l)) ELSE Raw(m, l), loc |-> l])
    [] c.tag = "ptr" -> IF ~Readable(m, l) THEN Bad ELSE FromOk([t |-> "ptr", to |-> c.ty, v |-> Raw(m, l), loc |-> l])
    [] c.tag = "struct" ->
         IF ~Numeric(m, l) THEN Bad
         ELSE LET R == [k \in DOMAIN c.mem |-> ReadAs(types, m, Shifted(m, l, c.mem[k].o), c.mem[k].ty)]
              IN IF \E k \in DOMAIN R : ~R[k].ok THEN Bad
                 ELSE FromOk([t |-> "struct", name |-> c.name, loc |-> l,
                              m |-> [n \in {c.mem[k].n : k \in DOMAIN c.mem} |->
                                       R[CHOOSE k \in DOMAIN c.mem : c.mem[k].n = n].v]])
    [] c.tag = "arr" ->
         IF l.k # "m" \/ SizeOf(types, c.ty) = -1 THEN Bad
         ELSE LET n == SizeOf(types, c.ty)
                  R == [k \in 1..c.size |-> ReadAs(types, m, Shifted(m, l, (k - 1) * n), c.ty)]
              IN IF \E k \in DOMAIN R : ~R[k].ok THEN Bad
                 ELSE FromOk([t |-> "arr", of |-> c.ty, v |-> l.a, m |-> [k \in DOMAIN R |-> R[k].v], loc |-> l])

Deref(types, m, v) ==
  IF v.t # "ptr" THEN ErrR(m)
  ELSE LET r == ReadAs(types, m, MemLoc(v.v), v.to) IN IF r.ok THEN Res(r.v, m) ELSE ErrR(m)

---------------------------------------------------------------------------
(* Operators *)
Both(l, r, t) == l.t = t /\ r.t = t
Ints(l, r) == Both(l, r, "int") \/ Both(l, r, "char")
Scalar(l, r) == Ints(l, r) \/ Both(l, r, "float")
Special(w) == FIsNaN(w) \/ FIsInf(w)
NonZero(v) == IF v.t = "float" THEN ~FIsZero(v.v) ELSE ~IsZero(v.v)
Cmp(l, r, signed) ==   \* <<less, equal>>
  IF l.t = "float" THEN <<FLess(l.v, r.v), (FIsZero(l.v) /\ FIsZero(r.v)) \/ l.v = r.v>>
  ELSE <<IF signed THEN SLess(l.v, r.v) ELSE ULess(l.v, r.v), l.v = r.v>>
Scale(types, w, to) == WMul(w, FromInt(SizeOf(types, to)))
MinInt == <<0, 0, 0, 32768>>

Binary(types, op, l, r) ==      \* [st, v]
  LET Ok(v) == [st |-> "ok", v |-> v]
      Wrong == [st |-> "err"]
      Und == [st |-> "undef"]
      cmp == Cmp(l, r, l.t # "ptr")
  IN
  IF Both(l, r, "float") /\ (Special(l.v) \/ Special(r.v)) THEN Und
  ELSE
  CASE op = "+" ->
         IF Ints(l, r) THEN Ok(IntV(WAdd(l.v, r.v)))
         ELSE IF Both(l, r, "float") THEN Ok(FloatV(FAdd(l.v, r.v)))
         ELSE IF l.t = "int" /\ r.t = "ptr" THEN (IF SizeOf(types, r.to) = -1 THEN Wrong ELSE Ok(PtrV(r.to, WAdd(r.v, Scale(types, l.v, r.to)))))
         ELSE IF l.t = "ptr" /\ r.t = "int" THEN (IF SizeOf(types, l.to) = -1 THEN Wrong ELSE Ok(PtrV(l.to, WAdd(l.v, Scale(types, r.v, l.to)))))
         ELSE Wrong
    [] op = "-" ->
         IF Both(l, r, "int") THEN Ok(IntV(WSub(l.v, r.v)))
         ELSE IF Both(l, r, "float") THEN Ok(FloatV(FSub(l.v, r.v)))
         ELSE IF l.t = "ptr" /\ r.t = "int" THEN (IF SizeOf(types, l.to) = -1 THEN Wrong ELSE Ok(PtrV(l.to, WSub(l.v, Scale(types, r.v, l.to)))))
         ELSE IF Both(l, r, "ptr") /\ l.to = r.to
              THEN (IF SizeOf(types, l.to) \in {-1, 0} THEN Wrong ELSE Ok(IntV(SDiv(WSub(l.v, r.v), FromInt(SizeOf(types, l.to))))))
         ELSE Wrong
    [] op = "*" ->
         IF Ints(l, r) THEN Ok(IntV(WMul(l.v, r.v)))
         ELSE IF Both(l, r, "float") THEN Ok(FloatV(FMul(l.v, r.v))) ELSE Wrong
    [] op = "/" ->
         IF ~Scalar(l, r) \/ ~NonZero(r) THEN Wrong
         ELSE IF l.t = "float" THEN Ok(FloatV(FDiv(l.v, r.v)))
         ELSE IF l.v = MinInt /\ r.v = Ones THEN Wrong ELSE Ok(IntV(SDiv(l.v, r.v)))
    [] op = "%" ->
         IF ~Ints(l, r) \/ ~NonZero(r) THEN Wrong
         ELSE IF l.v = MinInt /\ r.v = Ones THEN Wrong ELSE Ok(IntV(SRem(l.v, r.v)))
    [] op \in {"==", "!=", "<", "<=", ">=", ">", "&&", "||"} ->
         IF ~(Scalar(l, r) \/ Both(l, r, "ptr")) THEN Wrong
         ELSE Ok(BoolV(CASE op = "==" -> cmp[2]
                         [] op = "!=" -> ~cmp[2]
                         [] op = "<" -> cmp[1] /\ ~cmp[2]
                         [] op = "<=" -> cmp[1] \/ cmp[2]
                         [] op = ">" -> ~cmp[1] /\ ~cmp[2]
                         [] op = ">=" -> ~cmp[1] \/ cmp[2]
                         [] op = "&&" -> NonZero(l) /\ NonZero(r)
                         [] op = "||" -> NonZero(l) \/ NonZero(r)))
    [] op \in {"&", "|", "^"} ->
         IF ~Ints(l, r) THEN Wrong
         ELSE Ok(IntV(IF op = "&" THEN WAnd(l.v, r.v) ELSE IF op = "|" THEN WOr(l.v, r.v) ELSE WXor(l.v, r.v)))
    [] op \in {"<<", ">>"} ->
         IF ~Ints(l, r) THEN Wrong
         ELSE IF ~IsSmall(r.v) \/ ToNat(r.v) > (IF l.t = "char" THEN 20 ELSE 63) THEN Und
         ELSE Ok(IntV(IF op = "<<" THEN WShl(l.v, ToNat(r.v)) ELSE WSar(l.v, ToNat(r.v))))

Unary(op, v) ==
  IF v.t \notin {"int", "char"} THEN [st |-> "err"]
  ELSE LET w == IF op = "-" THEN WNeg(v.v) ELSE IF IsZero(v.v) THEN One ELSE Zero
       IN [st |-> "ok", v |-> [t |-> v.t, v |-> IF v.t = "char" THEN SignedByte(w) ELSE w, loc |-> NoLoc]]

---------------------------------------------------------------------------
(* Assignment: the cell or register of the left value gets the right one;  *)
(* structures and arrays are assigned member by member.                    *)
Store(m, l, w) == IF l.k = "r" THEN (IF l.r = "IP" THEN [m EXCEPT !.pc = w] ELSE [m EXCEPT !.regs[l.r] = w])
                  ELSE [m EXCEPT !.mem[Cell(l.a)] = w]
RECURSIVE Assign(_, _, _), AssignAll(_, _, _, _, _)
Assign(m, l, r) ==
  IF l.loc.k = "none" THEN ErrR(m)
  ELSE IF l.t # r.t THEN ErrR(m)
  ELSE CASE l.t \in {"int", "float", "char"} -> Res([l EXCEPT !.v = r.v], Store(m, l.loc, r.v))
         [] l.t = "ptr" -> IF l.to # r.to THEN ErrR(m) ELSE Res([l EXCEPT !.v = r.v], Store(m, l.loc, r.v))
         [] l.t = "arr" -> IF l.of # r.of \/ Len(l.m) # Len(r.m) THEN ErrR(m) ELSE AssignAll(m, l, r, DOMAIN l.m, l)
         [] l.t = "struct" -> IF l.name # r.name THEN ErrR(m)
                              ELSE IF DOMAIN l.m # DOMAIN r.m THEN UndefR(m)
                              ELSE AssignAll(m, l, r, DOMAIN l.m, l)
AssignAll(m, l, r, todo, acc) ==
  IF todo = {} THEN Res(acc, m)
  ELSE LET k == CHOOSE k \in todo : TRUE
           x == Assign(m, l.m[k], r.m[k])
       IN IF x.st # "ok" THEN UndefR(m) ELSE AssignAll(x.m, l, r, todo \ {k}, [acc EXCEPT !.m[k] = x.v])

---------------------------------------------------------------------------
(* Evaluation.  env: types, die, vals (earlier results).  Where C leaves   *)
(* the order of an assignment and another operand open, so does this.      *)
RECURSIVE Assigns(_)
Assigns(e) ==
  CASE e.k = "bin" -> e.op = "=" \/ Assigns(e.l) \/ Assigns(e.r)
    [] e.k = "un" -> Assigns(e.e)
    [] e.k = "idx" -> Assigns(e.a) \/ Assigns(e.x)
    [] e.k \in {"mem", "arrow"} -> Assigns(e.e)
    [] OTHER -> FALSE
Literal(e) == e.k \in {"num", "float"}
Unordered(a, b) == (Assigns(a) /\ ~Literal(b)) \/ (Assigns(b) /\ ~Literal(a))

Index(T, a, x, m) ==
  IF a.t = "ptr" THEN LET p == Binary(T, "+", a, x) IN IF p.st = "ok" THEN Deref(T, m, p.v) ELSE ErrR(m)
  ELSE IF a.t = "arr" /\ x.t = "int" /\ IsSmall(x.v) /\ ToNat(x.v) < Len(a.m) THEN Res(a.m[ToNat(x.v) + 1], m)
  ELSE ErrR(m)

Apply(T, e, l, r, m) ==
  IF e.k = "idx" THEN Index(T, l, r, m)
  ELSE IF e.op = "=" THEN Assign(m, l, r)
  ELSE LET y == Binary(T, e.op, l, r)
       IN CASE y.st = "ok" -> Res(y.v, m) [] y.st = "err" -> ErrR(m) [] OTHER -> UndefR(m)

RECURSIVE Eval(_, _, _), Operands(_, _, _, _, _)
Eval(env, e, m) ==
  LET T == env.types IN
  CASE e.k = "num" -> Res(IntV(e.v), m)
    [] e.k = "float" -> Res(FloatV(e.v), m)
    [] e.k = "old" -> IF IsSmall(e.v) /\ ToNat(e.v) < Len(env.vals) THEN Res(env.vals[ToNat(e.v) + 1], m) ELSE ErrR(m)
    [] e.k = "id" ->
         IF e.v \notin ActiveNames(env.die, Here(m)) THEN ErrR(m)
         ELSE LET d == Visible(env.die, Here(m), e.v)
                  l == RunLoc(m, d.loc, 1, <<>>)
              IN IF d.loc = <<>> \/ d.ty \notin DOMAIN T THEN ErrR(m)
                 ELSE IF ~l.ok THEN ErrR(m)
                 ELSE LET r == ReadAs(T, m, l.l, d.ty) IN IF r.ok THEN Res(r.v, m) ELSE ErrR(m)
    [] e.k = "un" ->
         LET x == Eval(env, e.e, m) IN
         IF x.st # "ok" THEN x
         ELSE IF e.op = "*" THEN Deref(T, x.m, x.v)
         ELSE LET y == Unary(e.op, x.v) IN IF y.st = "ok" THEN Res(y.v, x.m) ELSE ErrR(x.m)
    [] e.k = "arrow" ->
         LET x == Eval(env, e.e, m) IN
         IF x.st # "ok" THEN x
         ELSE LET y == Deref(T, x.m, x.v) IN
              IF y.st # "ok" THEN y
              ELSE IF y.v.t = "struct" /\ e.n \in DOMAIN y.v.m THEN Res(y.v.m[e.n], x.m) ELSE ErrR(x.m)
    [] e.k = "mem" ->
         LET x == Eval(env, e.e, m) IN
         IF x.st # "ok" THEN x
         ELSE IF x.v.t = "struct" /\ e.n \in DOMAIN x.v.m THEN Res(x.v.m[e.n], x.m) ELSE ErrR(x.m)
    [] e.k = "idx" -> Operands(env, e, e.a, e.x, m)
    [] e.k = "bin" -> Operands(env, e, e.l, e.r, m)
\* evaluate two operands, in both orders if that can matter
Operands(env, e, a, b, m) ==
  LET a1 == Eval(env, a, m)
      b1 == Eval(env, b, a1.m)
      ab == IF a1.st # "ok" THEN a1 ELSE IF b1.st # "ok" THEN b1 ELSE Apply(env.types, e, a1.v, b1.v, b1.m)
      b2 == Eval(env, b, m)
      a2 == Eval(env, a, b2.m)
      ba == IF b2.st # "ok" THEN b2 ELSE IF a2.st # "ok" THEN a2 ELSE Apply(env.types, e, a2.v, b2.v, a2.m)
  IN IF ~Unordered(a, b) THEN ab ELSE IF ab = ba THEN ab ELSE UndefR(m)

EvalText(env, ts, m) == LET p == ParseText(ts) IN IF p.ok THEN Eval(env, p.e, m) ELSE ErrR(m)

---------------------------------------------------------------------------
(* How values and their types are shown (character codes).                 *)
Codes == [int |-> <<105, 110, 116>>, float |-> <<102, 108, 111, 97, 116>>, char |-> <<99, 104, 97, 114>>,
          unsigned |-> <<117, 110, 115, 105, 103, 110, 101, 100>>]
Unknown == <<60, 117, 110, 107, 110, 111, 119, 110, 62, 42>>      \* <unknown>*
RECURSIVE TypeText(_, _)
TypeText(types, i) ==
  LET c == types[i] IN
  CASE c.tag = "prim" -> Codes[c.name]
    [] c.tag = "struct" -> c.nc
    [] c.tag = "ptr" -> IF c.ty \notin DOMAIN types THEN Unknown ELSE TypeText(types, c.ty) \o <<42>>
    [] c.tag = "arr" -> IF c.ty \notin DOMAIN types THEN Unknown ELSE TypeText(types, c.ty) \o <<91, 93>>
ShowType(types, v) ==
  CASE v.t \in {"int", "float", "char"} -> Codes[v.t]
    [] v.t = "ptr" -> IF v.to \notin DOMAIN types THEN Unknown ELSE TypeText(types, v.to) \o <<42>>
    [] v.t = "arr" -> IF v.of \notin DOMAIN types THEN Unknown ELSE TypeText(types, v.of) \o <<91, 93>>
    [] v.t = "struct" -> types[CHOOSE i \in DOMAIN types : types[i].tag = "struct" /\ types[i].name = v.name].nc

\* a zero-terminated string at cell a: [ok, s]
ByteAt(m, a) == m.mem[a + 1][1] % 256
CString(m, a) ==
  LET Z == {z \in 0..(Len(m.mem) - 1) : z >= ToNat(a) /\ ByteAt(m, z) = 0} IN
  IF ~IsSmall(a) \/ Z = {} THEN Bad
  ELSE LET z == CHOOSE z \in Z : \A y \in Z : z <= y
           C(k) == LET b == ByteAt(m, ToNat(a) + k - 1) IN IF b = 10 THEN <<92, 110>> ELSE IF b = 9 THEN <<92, 116>> ELSE <<b>>
           RECURSIVE Cat(_, _)
           Cat(k, acc) == IF k > z - ToNat(a) THEN acc ELSE Cat(k + 1, acc \o C(k))
       IN [ok |-> TRUE, s |-> Cat(1, <<>>)]
Quoted(m, a) == LET c == CString(m, a) IN IF c.ok THEN [ok |-> TRUE, s |-> UDec(WToB(a)) \o <<32, 34>> \o c.s \o <<34>>] ELSE Bad

RECURSIVE ShowVal(_, _, _, _), ShowAll(_, _, _, _, _, _)
\* names: members of a structure in the order they are shown
ShowVal(types, order, m, v) ==      \* [ok, s]
  CASE v.t = "int" -> [ok |-> TRUE, s |-> SDec(v.v)]
    [] v.t = "float" -> [ok |-> TRUE, s |-> <<>>]      \* not compared
    [] v.t = "char" -> [ok |-> TRUE, s |-> <<39, v.v[1] % 256, 39>>]
    [] v.t = "ptr" -> IF v.to \in DOMAIN types /\ types[v.to].tag = "prim" /\ types[v.to].name = "char"
                      THEN Quoted(m, v.v) ELSE [ok |-> TRUE, s |-> UDec(WToB(v.v))]
    [] v.t = "arr" -> IF Len(v.m) > 0 /\ v.m[Len(v.m)].t = "char" THEN Quoted(m, v.v)
                      ELSE ShowAll(types, order, m, v, [k \in 1..Len(v.m) |-> [n |-> k, nc |-> <<>>]], <<91>>)
    [] v.t = "struct" -> ShowAll(types, order, m, v, SelectSeq(order, LAMBDA x : x.n \in DOMAIN v.m), <<123, 32>>)
ShowAll(types, order, m, v, ks, acc) ==
  LET close == IF v.t = "arr" THEN <<93>> ELSE <<32, 125>>
      one(i) == ShowVal(types, order, m, v.m[ks[i].n])
      RECURSIVE Go(_, _)
      Go(i, a) == IF i > Len(ks) THEN [ok |-> TRUE, s |-> a \o close]
                  ELSE IF ~one(i).ok THEN Bad
                  ELSE Go(i + 1, a \o (IF i > 1 THEN <<44, 32>> ELSE <<>>)
                                   \o (IF v.t = "struct" THEN ks[i].nc \o <<32, 61, 32>> ELSE <<>>) \o one(i).s)
  IN Go(1, acc)
RECURSIVE HasFloat(_)
HasFloat(v) == IF v.t \in {"arr", "struct"} THEN \E k \in DOMAIN v.m : HasFloat(v.m[k]) ELSE v.t = "float"
=============================================================================
