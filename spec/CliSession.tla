----------------------------- MODULE CliSession -----------------------------
(***************************************************************************)
(* A session of the command line debugger (src/dbg-cli/CLI.h): commands    *)
(* typed one after another, each answered by a message, a listing or an    *)
(* error.  The running program and what commands do to it are those of     *)
(* DebugSession; this module adds running the program (again), the         *)
(* settings that outlive a run, and what is shown.                         *)
(*                                                                         *)
(* w, the debugged file: prog, data, lines, die, order, src (the source    *)
(* lines), hassrc, loads (it can be loaded at all).                        *)
(* c, the session: on (something was run), s (a DebugSession), runs (how   *)
(* often), base (length of the output before the current command), veil    *)
(* (addresses whose text a known finding hides), loose (how results are    *)
(* numbered is not specified: after a second run, or after an expression   *)
(* whose value could not be shown), remote (the machine belongs to a       *)
(* t86-cli process, which shows the program's output).                     *)
(* Lines are numbered from 1 by the user and from 0 in the mapping.        *)
(***************************************************************************)
EXTENDS DebugSession

CInit(w) == [on |-> FALSE, runs |-> 0, base |-> 0, veil |-> {}, loose |-> FALSE, remote |-> FALSE,
             s |-> SInit(InitMachine(1, 0, 1, <<>>, <<>>), <<>>, w.lines, w.die, w.order)]

\* a program that ended or failed cannot be continued
Fin(c) == Over(c.s)

---------------------------------------------------------------------------
(* Running: a fresh machine and the text of the file; breakpoints (enabled *)
(* or not) and watchpoints stay.                                           *)
CanRun(w, q) == w.loads /\ Len(w.data) <= q.ram
Run(w, c, q) ==
  [c EXCEPT !.on = TRUE, !.runs = @ + 1, !.base = 0, !.loose = c.on, !.remote = FALSE,
            !.veil = {a \in DOMAIN c.s.bp : ~c.s.bp[a]},
            !.s = [SInit(InitMachine(q.nr, q.nf, q.ram, w.data, <<>>), w.prog, w.lines, w.die, w.order)
                     EXCEPT !.bp = c.s.bp, !.wp = c.s.wp]]

\* attaching to a machine that has not started yet: another process, with
\* settings of its own
Attach(w, c, q) == [Run(w, c, q) EXCEPT !.remote = TRUE, !.veil = {}, !.s.bp = [a \in {} |-> FALSE], !.s.wp = {}]

---------------------------------------------------------------------------
(* What is shown.                                                          *)
PcIs(s, a) == s.m.pc = FromInt(a)
PcNat(s) == Here(s.m)
LineOf(s, pc) == MaxOf(LinesAt(s, pc))
Vague1(s) == s.ev.e = "err"

AsmRow(c, strict, x) ==
  /\ x.n < Len(c.s.text)
  /\ x.bp = (x.n \in DOMAIN c.s.bp)
  /\ Vague1(c.s) \/ x.cur = PcIs(c.s, x.n)
  /\ (x.n \in c.veil /\ ~strict) \/ x.ins = c.s.text[x.n + 1]
Consecutive(rows) == \A k \in DOMAIN rows : rows[k].n = rows[1].n + k - 1
AsmRows(c, strict, rows) == Consecutive(rows) /\ \A k \in DOMAIN rows : AsmRow(c, strict, rows[k])
ShowsRow(rows, n) == \E k \in DOMAIN rows : rows[k].n = n
\* exactly the addresses lo .. hi
AsmExact(c, strict, rows, lo, hi) == AsmRows(c, strict, rows) /\ Len(rows) = hi - lo + 1 /\ (rows # <<>> => rows[1].n = lo)

\* a breakpoint is shown at the last of the lines its address belongs to
Marked(s, l) == LET a == AddrOfLine(s, l) IN a # -1 /\ a \in DOMAIN s.bp /\ LineOf(s, FromInt(a)) = l
SrcRow(w, s, x) ==
  /\ x.n >= 1 /\ x.n <= Len(w.src)
  /\ x.x = w.src[x.n]
  /\ x.bp = Marked(s, x.n - 1)
  /\ Vague1(s) \/ x.cur = (HasLine(s, s.m.pc) /\ LineOf(s, s.m.pc) = x.n - 1)
SrcRows(w, s, rows) == Consecutive(rows) /\ \A k \in DOMAIN rows : SrcRow(w, s, rows[k])
\* the existing ones of the lines lo .. hi
SrcExact(w, s, rows, lo, hi) ==
  LET top == IF hi < Len(w.src) THEN hi ELSE Len(w.src)
      n == IF top < lo THEN 0 ELSE top - lo + 1
  IN SrcRows(w, s, rows) /\ Len(rows) = n /\ (n > 0 => rows[1].n = lo)

NoFun == [n |-> "", b |-> -1, e |-> -1, vars |-> <<>>]
FunHere(s) == FunctionAt(s.die, PcNat(s))
FunOk(s, f, withvars) ==
  IF FunHere(s) = {} THEN f = NoFun
  ELSE LET g == CHOOSE g \in FunHere(s) : TRUE IN
       /\ f.n = g.name /\ f.b = g.b /\ f.e = g.e
       /\ IF withvars THEN Rng(f.vars) = ActiveNames(s.die, PcNat(s)) ELSE f.vars = <<>>

Empty(r) == r.fun = NoFun /\ r.rows = <<>>
AsmHere(c, strict, r) ==
  IF InText(c.s, c.s.m.pc) THEN r.v = "asm" /\ FunOk(c.s, r.fun, TRUE) /\ AsmRows(c, strict, r.rows) /\ ShowsRow(r.rows, PcNat(c.s))
  ELSE Empty(r)
SrcHere(w, s, r) ==
  LET l == LineOf(s, s.m.pc) + 1 IN
  /\ r.v # "asm" /\ FunOk(s, r.fun, TRUE) /\ SrcRows(w, s, r.rows)
  /\ (l <= Len(w.src) => ShowsRow(r.rows, l))

\* the listing after a stop
ViewOk(w, c, strict, k, r) ==
  LET s == c.s IN
  CASE s.ev.e = "end" -> Empty(r)
    [] s.ev.e = "err" -> TRUE
    [] k \in {"si", "so"} -> AsmHere(c, strict, r)
    [] k \in {"sin", "sov"} /\ ~HasLine(s, s.m.pc) -> Empty(r)
    [] HasLine(s, s.m.pc) -> SrcHere(w, s, r)
    [] OTHER -> AsmHere(c, strict, r)

\* the message about a stop; a step that just ended has none
EventOk(s, r) ==
  /\ r.e = s.ev.e
  /\ s.ev.e = "wp" => r.a = s.ev.a
  /\ s.ev.e = "bp" => IF HasLine(s, FromInt(s.ev.a)) THEN r.l = LineOf(s, FromInt(s.ev.a)) + 1 ELSE r.a = s.ev.a
OutOk(c, r) == r.out = IF c.remote THEN <<>> ELSE SubSeq(c.s.m.out, c.base + 1, Len(c.s.m.out))

\* what of a stop is wrong ("" if nothing)
StopBad(w, c, strict, k, r) ==
  IF r.t = "hang" THEN "hang"
  ELSE IF r.t # "stop" THEN "no stop"
  ELSE IF ~EventOk(c.s, r) THEN "event"
  ELSE IF ~OutOk(c, r) THEN "output"
  ELSE IF ~ViewOk(w, c, strict, k, r) THEN "listing"
  ELSE ""

---------------------------------------------------------------------------
(* Commands other than running and resuming.                               *)
Target(s, q) == IF q.k = "loc" THEN [k |-> q.v, a |-> AddrFor(s, [num |-> q.num, l |-> q.l, base |-> 1, n |-> q.n])] ELSE q.q
Free == {"help", "usage"}
Shows == {"bplist", "wplist", "regs", "dis", "src", "frame"}

FunNamed(s, n) == CHOOSE f \in FunctionNamed(s.die, n) : TRUE
Refused(w, c, q) ==
  LET s == c.s IN
  CASE q.k = "bad" -> TRUE
    [] q.k \in {"nat", "loc"} -> ~Legal(s, Target(s, q))
    [] q.k = "expr" -> ~Legal(s, [k |-> "evs", ts |-> q.ts])
    [] q.k = "frame" -> Fin(c)
    [] q.k = "dis" ->
        (CASE q.m = "range" -> q.lo > q.hi \/ q.hi >= Len(s.text)
           [] q.m = "from" -> q.lo >= Len(s.text) \/ (q.n # -1 /\ q.lo + q.n > Len(s.text))
           [] q.m = "fun" -> FunctionNamed(s.die, q.f) = {} \/ FunNamed(s, q.f).e > Len(s.text)
           [] OTHER -> FALSE)
    [] q.k = "src" ->
        (CASE q.m = "here" -> ~HasLine(s, s.m.pc)
           [] q.m = "from" -> q.lo < 1 \/ (q.n = -1 /\ ~w.hassrc))
    [] OTHER -> FALSE

\* enabling, removing or rewriting it brings a hidden instruction back
Unveiled(c, d) ==
  IF d.k \in {"bpe", "bpu"} THEN c.veil \ {d.a}
  ELSE IF d.k = "wt" THEN c.veil \ {d.a + k - 1 : k \in DOMAIN d.ins}
  ELSE c.veil
Effect(c, q) ==
  LET s == c.s IN
  CASE q.k \in {"nat", "loc"} -> [c EXCEPT !.s = Do(s, Target(s, q)), !.veil = Unveiled(c, Target(s, q))]
    [] q.k = "expr" -> [c EXCEPT !.s = Do(s, [k |-> "ev", ts |-> q.ts])]
    [] OTHER -> c
\* a failing expression may have assigned something before
AfterRefusal(c, q) == IF q.k = "expr" THEN [c EXCEPT !.s = Do(c.s, [k |-> "evs", ts |-> q.ts]),
                                                     !.loose = @ \/ Evaluated(c.s, [ts |-> q.ts]).st = "ok"] ELSE c

\* one variable of a frame; those that cannot be evaluated are left out
VarEval(s, v) == Evaluated(s, [ts |-> v.ts])
VarShown(s, v) == LET r == VarEval(s, v) IN ShowVal(s.types, s.order, r.m, r.v)
FrameVar(s, v, rows) ==
  LET mine == {x \in Rng(rows) : x.n = v.n}
      r == VarEval(s, v)
  IN IF v.n \notin ActiveNames(s.die, PcNat(s)) THEN mine = {}
     ELSE IF r.st = "undef" THEN TRUE
     ELSE IF r.st # "ok" \/ ~VarShown(s, v).ok THEN mine = {}
     ELSE /\ Cardinality(mine) = 1
          /\ \A x \in mine : x.ty = ShowType(s.types, r.v) /\ (HasFloat(r.v) \/ x.s = VarShown(s, v).s)

BpMessage(s, q, r) ==
  LET a == Target(s, q).a IN
  /\ r.t = "bp" /\ r.v = q.verb
  /\ IF q.k = "nat" THEN r.a = a /\ r.l = 0
     ELSE IF HasLine(s, FromInt(a)) THEN r.a = a /\ r.l = LineOf(s, FromInt(a)) + 1
     ELSE r.a = a /\ r.l = 0
\* the characters of cells; those that begin a terminal's control sequence cannot be told from colours
Char(x) == x[1] % 256
Plain(m) == \A k \in DOMAIN m : Char(m[k]) # 27

AnswerOk(w, c, strict, q, r) ==
  LET s == c.s IN
  CASE q.k = "nat" /\ q.q.k \in {"bps", "bpu", "bpe", "bpd"} ->
          /\ BpMessage(s, q, r)
          /\ q.q.k = "bps" => (q.q.a \in c.veil \/ r.ins = s.text[q.q.a + 1])
    [] q.k = "loc" -> BpMessage(s, q, r)
    [] q.k = "nat" /\ q.q.k = "rm" /\ q.str ->
          LET m == Answer(s, q.q).m IN Plain(m) => (r.t = "bytes" /\ r.b = [k \in DOMAIN m |-> Char(m[k])])
    [] q.k = "nat" /\ q.q.k = "rm" ->
          /\ r.t = "cells" /\ r.m = Answer(s, q.q).m /\ \A k \in DOMAIN r.m : r.n[k] = q.q.a + k - 1
    [] q.k = "nat" -> Vague(s, q.q) \/ Answers(s, q.q, r)
    [] q.k = "bplist" ->
          /\ r.t = "bps" /\ Len(r.l) = Cardinality(DOMAIN s.bp)
          /\ \A k \in DOMAIN r.l :
               LET x == r.l[k] IN
               /\ x.a \in DOMAIN s.bp /\ x.on = s.bp[x.a]
               /\ x.l = IF HasLine(s, FromInt(x.a)) THEN LineOf(s, FromInt(x.a)) + 1 ELSE 0
               /\ x.f = LET F == FunctionAt(s.die, x.a) IN IF F = {} THEN "" ELSE (CHOOSE f \in F : TRUE).name
          /\ {r.l[k].a : k \in DOMAIN r.l} = DOMAIN s.bp
    [] q.k = "wplist" -> r.t = "wps" /\ Rng(r.l) = s.wp /\ Len(r.l) = Cardinality(s.wp)
    [] q.k = "regs" -> r.t = "regs" /\ (Vague1(s) \/ r.m = [x \in RegNames(s) |-> IF x = "IP" THEN s.m.pc ELSE s.m.regs[x]])
    [] q.k = "dis" /\ q.m = "here" ->
          \/ Vague1(s)
          \/ r.t = "list" /\ IF InText(s, s.m.pc)
             THEN LET p == PcNat(s) IN
                  /\ r.v = "asm" /\ FunOk(s, r.fun, TRUE)
                  /\ AsmExact(c, strict, r.rows, IF p < 2 THEN 0 ELSE p - 2, IF p + 2 < Len(s.text) THEN p + 2 ELSE Len(s.text) - 1)
             ELSE Empty(r)
    [] q.k = "dis" ->
          /\ r.t = "list" /\ r.fun = NoFun /\ (r.rows # <<>> => r.v = "asm")
          /\ (CASE q.m = "range" -> AsmExact(c, strict, r.rows, q.lo, q.hi)
               [] q.m = "from" -> AsmExact(c, strict, r.rows, q.lo, IF q.n = -1 THEN Len(s.text) - 1 ELSE q.lo + q.n - 1)
               [] q.m = "fun" -> AsmExact(c, strict, r.rows, FunNamed(s, q.f).b, FunNamed(s, q.f).e - 1))
    [] q.k = "src" /\ q.m = "here" ->
          \/ Vague1(s)
          \/ LET l == LineOf(s, s.m.pc) + 1 IN
             r.t = "list" /\ r.v # "asm" /\ r.fun = NoFun /\ SrcExact(w, s, r.rows, IF l < 3 THEN 1 ELSE l - 2, l + 2)
    [] q.k = "src" -> r.t = "list" /\ r.v # "asm" /\ r.fun = NoFun
                      /\ SrcExact(w, s, r.rows, q.lo, IF q.n = -1 \/ q.n > Len(w.src) THEN Len(w.src) ELSE q.lo + q.n - 1)
    [] q.k = "frame" ->
          /\ r.t = "frame" /\ FunOk(s, r.fun, FALSE)
          /\ IF FunHere(s) = {} THEN r.l = <<>>
             ELSE \A k \in DOMAIN q.names : FrameVar(s, q.names[k], r.l)
    [] q.k = "expr" ->
          LET v == Evaluated(s, [ts |-> q.ts]).v IN
          /\ r.t = "show" /\ (c.loose \/ r.i = Len(s.vals))
          /\ r.ty = ShowType(s.types, v) /\ (HasFloat(v) \/ r.s = Shown(s, [ts |-> q.ts]).s)
    [] OTHER -> TRUE

\* what the properties do not speak about, and what a known finding disturbs:
\* stepping over or out does not see that a hidden instruction is a CALL or RET
COutside(c) == Outside(c.s) \/ (StepsOver(c.s.run.k) /\ PcNat(c.s) \in c.veil)
CUnspecified(c, q) ==
  \/ q.k = "expr" /\ (Vague1(c.s) \/ Evaluated(c.s, [ts |-> q.ts]).st = "undef")
  \/ q.k = "expr" /\ c.loose /\ \E k \in DOMAIN q.ts : q.ts[k].k = "$"
  \/ q.k = "src" /\ q.m = "here" /\ Vague1(c.s)
---------------------------------------------------------------------------
(* Commands as a whole: what kind of answer is expected, and the session   *)
(* after it.  A command that resumes the program leaves it running.        *)
KindOf(w, c, q) ==
  CASE q.k = "help" -> "usage"
    [] q.k = "run" -> IF CanRun(w, q) THEN "started" ELSE "error"
    [] q.k = "attach" -> "ok"
    [] q.k = "noattach" -> "error"
    [] ~c.on -> "inactive"
    [] q.k = "usage" -> "usage"
    [] q.k = "go" -> IF Fin(c) THEN "error" ELSE "stop"
    [] CUnspecified(c, q) -> "any"
    [] Refused(w, c, q) -> "error"
    [] OTHER -> "answer"

Base(x) == [x EXCEPT !.base = -1]
AfterCmd(w, c, q) ==
  LET kind == KindOf(w, c, q) IN
  CASE kind = "ok" -> Base(Attach(w, c, q))
    [] kind = "started" -> Base(Run(w, c, q))
    [] kind = "stop" -> [c EXCEPT !.s = Start(@, q.c), !.base = Len(c.s.m.out)]
    [] kind = "answer" -> Base(Effect(c, q))
    [] kind = "error" /\ c.on /\ q.k \notin {"run", "noattach", "go"} -> Base(AfterRefusal(c, q))
    [] OTHER -> Base(c)
=============================================================================
