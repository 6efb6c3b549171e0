----------------------------- MODULE SourceInfo -----------------------------
(***************************************************************************)
(* What the debugging information of a program means (docs/source-info.md, *)
(* src/debugger/Source): the tree of debugging information entries, which  *)
(* variables are visible at an address, where a variable is, and what the  *)
(* types are.                                                              *)
(*                                                                         *)
(* An entry is a record                                                    *)
(*   tag   "unit" | "function" | "scope" | "variable" | "prim" | "ptr" |   *)
(*         "struct" | "arr" | "none" (there is no information)             *)
(*   name  "" if missing        nc   the same as character codes           *)
(*   id, ty, size, b, e         -1 if missing                              *)
(*   hasm, mem                  members: <<[o |-> offset, ty, n, nc]>>     *)
(*   loc   location program, <<>> if missing                               *)
(*   ch    the children                                                    *)
(***************************************************************************)
EXTENDS T86ISA, FiniteSets

Rng(q) == {q[k] : k \in DOMAIN q}

---------------------------------------------------------------------------
(* Scopes *)
Scoped(d) == d.tag \in {"scope", "function"}
Covers(d, a) == ~Scoped(d) \/ (d.b # -1 /\ d.e # -1 /\ d.b <= a /\ a < d.e)

\* variables of all scopes around address a, with their nesting depth
RECURSIVE VarsAt(_, _, _)
VarsAt(d, a, depth) ==
  IF d.tag = "none" \/ ~Covers(d, a) THEN {}
  ELSE UNION {IF c.tag = "variable" THEN (IF c.name = "" THEN {} ELSE {[n |-> c.name, d |-> depth, v |-> c]})
              ELSE VarsAt(c, a, depth + 1) : c \in Rng(d.ch)}
\* where the machine is; no scope reaches beyond the small addresses
Here(m) == IF IsSmall(m.pc) THEN ToNat(m.pc) ELSE 2147483647
ActiveNames(d, a) == {x.n : x \in VarsAt(d, a, 0)}
\* the innermost declaration of a name
Visible(d, a, name) ==
  LET S == {x \in VarsAt(d, a, 0) : x.n = name}
  IN (CHOOSE x \in S : \A y \in S : y.d <= x.d).v

Functions(d) == IF d.tag = "none" THEN {} ELSE {c \in Rng(d.ch) : c.tag = "function"}
FunctionAt(d, a) == {f \in Functions(d) : f.name # "" /\ f.b # -1 /\ f.e # -1 /\ f.b <= a /\ a < f.e}
FunctionNamed(d, n) == {f \in Functions(d) : f.name = n /\ f.b # -1 /\ f.e # -1}

---------------------------------------------------------------------------
(* Locations: a register or a memory cell.  A location program runs on a   *)
(* stack of locations; its result is the top of the stack.                 *)
NoLoc == [k |-> "none"]
RegLoc(r) == [k |-> "r", r |-> r]
MemLoc(a) == [k |-> "m", a |-> a]
KnownReg(m, r) == r = "IP" \/ r \in DOMAIN m.regs
RegNow(m, r) == IF r = "IP" THEN m.pc ELSE m.regs[r]
\* a location used as a number: the register's value, or the address itself
Numeric(m, l) == l.k = "m" \/ KnownReg(m, l.r)
Number(m, l) == IF l.k = "m" THEN l.a ELSE RegNow(m, l.r)

Bad == [ok |-> FALSE]
RECURSIVE RunLoc(_, _, _, _)
RunLoc(m, p, i, st) ==
  IF i > Len(p) THEN (IF st = <<>> THEN Bad ELSE [ok |-> TRUE, l |-> st[Len(st)]])
  ELSE LET o == p[i]
           n == Len(st)
       IN CASE o.op = "push" -> RunLoc(m, p, i + 1, Append(st, o.v))
            [] o.op = "base" -> RunLoc(m, p, i + 1, Append(st, MemLoc(WAdd(m.regs["BP"], o.n))))
            [] o.op = "add" ->
                 IF n < 2 \/ ~Numeric(m, st[n]) \/ ~Numeric(m, st[n-1]) THEN Bad
                 ELSE RunLoc(m, p, i + 1, Append(SubSeq(st, 1, n - 2), MemLoc(WAdd(Number(m, st[n]), Number(m, st[n-1])))))
            [] o.op = "deref" ->
                 IF n < 1 \/ ~Numeric(m, st[n]) \/ ~InRam(m, Number(m, st[n])) THEN Bad
                 ELSE RunLoc(m, p, i + 1, Append(SubSeq(st, 1, n - 1), MemLoc(m.mem[Cell(Number(m, st[n]))])))

---------------------------------------------------------------------------
(* Types, by id; incomplete or unknown type entries define no type.        *)
Prims == {"int", "float", "char", "unsigned"}
IsType(c) ==
  /\ c.id # -1
  /\ CASE c.tag = "prim" -> c.name \in Prims /\ c.size # -1
       [] c.tag = "ptr" -> c.ty # -1 /\ c.size # -1
       [] c.tag = "struct" -> c.name # "" /\ c.size # -1 /\ c.hasm
       [] c.tag = "arr" -> c.ty # -1 /\ c.size # -1
       [] OTHER -> FALSE
Types(d) ==
  IF d.tag = "none" THEN [i \in {} |-> 0]
  ELSE LET S == {c \in Rng(d.ch) : IsType(c)}
       IN [i \in {c.id : c \in S} |-> CHOOSE c \in S : c.id = i]

\* size of a type, -1 if something about it is unknown
RECURSIVE SizeOf(_, _)
SizeOf(types, i) ==
  IF i \notin DOMAIN types THEN -1
  ELSE LET c == types[i] IN
       IF c.tag # "arr" THEN c.size
       ELSE LET n == SizeOf(types, c.ty) IN IF n = -1 THEN -1 ELSE n * c.size
=============================================================================
