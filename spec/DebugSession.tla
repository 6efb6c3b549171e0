---------------------------- MODULE DebugSession ----------------------------
(***************************************************************************)
(* A debugging session as its user sees it (src/debugger: Native, Source): *)
(* a sequential machine, the program text as loaded or edited by the user, *)
(* breakpoints that stop before an instruction, watchpoints that stop      *)
(* after a write, and commands that run the machine from one stop to the   *)
(* next.  How breakpoints are realised (BKPT patched into the VM's text,   *)
(* debug registers, single steps) is invisible here; NativeImpl models it. *)
(*                                                                         *)
(* A session s is a record:                                                *)
(*   m      the machine (T86ISA)       text   the program text             *)
(*   bp     address -> enabled?        wp     watched addresses            *)
(*   die    debugging information      types  the types it describes       *)
(*   vals   results of earlier expressions ($0, $1, ...)                   *)
(*   order  member names in alphabetical order (how structures are shown)  *)
(*   lines  sequence of [l |-> source line, a |-> address]                 *)
(*   run    [k |-> "no"] or the running command:                           *)
(*          k      cont | si | so | sout | sin | sov                       *)
(*          first  no instruction executed yet                             *)
(*          over   a CALL is being stepped over; ret, fp: where it returns *)
(*                 to and the frame (BP) it returns into                   *)
(*                 (reaching ret in another frame is not the return)       *)
(*          rets   the last instruction executed was the function's RET    *)
(*   ev     the event of the last stop: [e |-> kind, a |-> address or -1]  *)
(***************************************************************************)
EXTENDS Expr

NoRun == [k |-> "no"]
Event(e, a) == [e |-> e, a |-> a]
SInit(m, text, lines, die, order) == [m |-> m, text |-> text, bp |-> [a \in {} |-> FALSE], wp |-> {}, lines |-> lines,
                          die |-> die, types |-> Types(die), order |-> order, vals |-> <<>>,
                          run |-> NoRun, ev |-> Event("begin", -1)]
Resumes == {"cont", "si", "so", "sout", "sin", "sov"}
Over(s) == s.ev.e \in {"end", "err"}

BpOn(s, pc) == IsSmall(pc) /\ ToNat(pc) \in DOMAIN s.bp /\ s.bp[ToNat(pc)]
LinesAt(s, pc) == {s.lines[k].l : k \in {k \in DOMAIN s.lines : FromInt(s.lines[k].a) = pc}}
HasLine(s, pc) == LinesAt(s, pc) # {}
InText(s, pc) == IsSmall(pc) /\ ToNat(pc) < Len(s.text)
IsOp(s, op) == Fetch(s.text, s.m.pc).op = op

Start(s, k) == [s EXCEPT !.run = [k |-> k, first |-> TRUE, over |-> FALSE, ret |-> Zero, fp |-> Zero, rets |-> FALSE]]
Stop(s, e) == [s EXCEPT !.run = NoRun, !.ev = e]

---------------------------------------------------------------------------
(* One move of a running session: it either stops between two instructions *)
(* or executes one.                                                        *)

\* instructions that a command treats as one unit when they are calls
StepsOver(k) == k \in {"so", "sout", "sov"}
Returned(s) == s.run.over /\ ~s.run.first /\ s.m.pc = s.run.ret /\ s.m.regs["BP"] = s.run.fp

Execute(s) ==
  LET r == s.run
      call == StepsOver(r.k) /\ ~r.over /\ IsOp(s, "CALL")
      m2 == Step(s.text, s.m)
      hit == {m2.wr[k] : k \in DOMAIN m2.wr} \cap s.wp
      s2 == [s EXCEPT !.m = m2,
                      !.run = IF call THEN [r EXCEPT !.first = FALSE, !.over = TRUE, !.ret = WAdd(s.m.pc, One), !.fp = s.m.regs["BP"]]
                              ELSE [r EXCEPT !.first = FALSE, !.rets = ~r.over /\ IsOp(s, "RET")]]
  IN IF m2.st = "err" THEN Stop(s2, Event("err", -1))
     ELSE IF m2.st = "halt" THEN Stop(s2, Event("end", -1))
     ELSE IF hit # {} THEN Stop(s2, Event("wp", CHOOSE a \in hit : TRUE))
     ELSE s2

Stepped == Event("step", -1)
AtBp(s) == Event("bp", ToNat(s.m.pc))

Move(s) ==
  LET r == s.run IN
  IF r.first THEN Execute(s)
  ELSE IF r.over THEN
    IF Returned(s) THEN IF r.k = "so" THEN Stop(s, Stepped) ELSE [s EXCEPT !.run.over = FALSE]
    ELSE IF BpOn(s, s.m.pc) THEN Stop(s, AtBp(s))
    ELSE Execute(s)
  ELSE
    CASE r.k \in {"si", "so"} -> Stop(s, Stepped)
      [] r.k = "cont" -> IF BpOn(s, s.m.pc) THEN Stop(s, AtBp(s)) ELSE Execute(s)
      [] r.k = "sout" -> IF r.rets THEN Stop(s, Stepped)
                         ELSE IF BpOn(s, s.m.pc) THEN Stop(s, AtBp(s)) ELSE Execute(s)
      [] r.k \in {"sin", "sov"} -> IF HasLine(s, s.m.pc) THEN Stop(s, Stepped)
                                   ELSE IF BpOn(s, s.m.pc) THEN Stop(s, AtBp(s)) ELSE Execute(s)

(* Runs the properties do not speak about: the machine is at an            *)
(* instruction without defined result, at a BKPT of the program itself, or *)
(* a stepping command has left the program text.                           *)
Outside(s) ==
  LET i == Fetch(s.text, s.m.pc) IN
  \/ Undefined(s.m, i)
  \/ i.op = "BKPT"
  \/ StepsOver(s.run.k) /\ ~InText(s, s.m.pc)

---------------------------------------------------------------------------
(* Commands at a stop: Legal says whether the command is accepted; Do is   *)
(* its effect and Answer its result, when it is.                           *)
RegNames(s) == DOMAIN s.m.regs \cup {"IP"}
AddrOfLine(s, l) == LET k == {k \in DOMAIN s.lines : s.lines[k].l = l}
                    IN IF k = {} THEN -1 ELSE s.lines[CHOOSE x \in k : TRUE].a
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

LineCmd == [lbs |-> "bps", lbu |-> "bpu", lbe |-> "bpe", lbd |-> "bpd"]
Desugar(s, q) == IF q.k \in DOMAIN LineCmd THEN [k |-> LineCmd[q.k], a |-> AddrOfLine(s, q.l)] ELSE q

\* source-level requests
Evals == {"ev", "evn", "evs"}
Env(s) == [types |-> s.types, die |-> s.die, vals |-> s.vals]
Evaluated(s, q) == EvalText(Env(s), q.ts, s.m)
Shown(s, q) == LET r == Evaluated(s, q) IN ShowVal(s.types, s.order, r.m, r.v)
HasLoc(s, n) == n \in ActiveNames(s.die, Here(s.m)) /\ Visible(s.die, Here(s.m), n).loc # <<>>
LocOf(s, n) == RunLoc(s.m, Visible(s.die, Here(s.m), n).loc, 1, <<>>)
AddrFor(s, q) == IF q.num THEN (IF q.l - q.base < 0 THEN -1 ELSE AddrOfLine(s, q.l - q.base))
                 ELSE LET F == FunctionNamed(s.die, q.n) IN IF F = {} THEN -1 ELSE (CHOOSE f \in F : TRUE).b

Legal(s, q0) ==
  LET q == Desugar(s, q0) IN
  CASE q.k = "bps" -> q.a >= 0 /\ q.a < Len(s.text) /\ q.a \notin DOMAIN s.bp
    [] q.k \in {"bpu", "bpe", "bpd"} -> q.a \in DOMAIN s.bp
    [] q.k = "wps" -> q.a \notin s.wp /\ Cardinality(s.wp) < 4
    [] q.k = "wpr" -> q.a \in s.wp
    [] q.k = "rt"  -> q.a + q.n <= Len(s.text)
    [] q.k = "wt"  -> q.ok /\ q.a + Len(q.ins) <= Len(s.text)
    [] q.k \in {"reg", "sreg"} -> q.r \in RegNames(s)
    [] q.k \in {"freg", "sfreg"} -> q.r \in DOMAIN s.m.fregs
    [] q.k = "rm"  -> q.a + q.n <= Len(s.m.mem)
    [] q.k = "sm"  -> q.a + Len(q.v) <= Len(s.m.mem)
    [] q.k \in Evals -> Evaluated(s, q).st = "ok" /\ (q.k = "evs" => Shown(s, q).ok)
    [] q.k = "loc" -> HasLoc(s, q.n) => LocOf(s, q.n).ok
    [] q.k = "addr" -> AddrFor(s, q) # -1
    [] OTHER -> TRUE

Without(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]

Do(s, q0) ==
  LET q == Desugar(s, q0) IN
  CASE q.k \in {"bps", "bpe"} -> [s EXCEPT !.bp = With(@, q.a, TRUE)]
    [] q.k = "bpd" -> [s EXCEPT !.bp = With(@, q.a, FALSE)]
    [] q.k = "bpu" -> [s EXCEPT !.bp = Without(@, q.a)]
    [] q.k = "sab" -> [s EXCEPT !.bp = [a \in {q.l[k].a : k \in DOMAIN q.l} |->
                                           \E k \in DOMAIN q.l : q.l[k].a = a /\ q.l[k].on]]
    [] q.k = "wps" -> [s EXCEPT !.wp = @ \cup {q.a}]
    [] q.k = "wpr" -> [s EXCEPT !.wp = @ \ {q.a}]
    [] q.k = "saw" -> [s EXCEPT !.wp = {q.l[k] : k \in DOMAIN q.l}]
    [] q.k = "wt"  -> [s EXCEPT !.text = [k \in DOMAIN @ |-> IF k > q.a /\ k <= q.a + Len(q.ins) THEN q.ins[k - q.a] ELSE @[k]]]
    [] q.k = "sreg" -> IF q.r = "IP" THEN [s EXCEPT !.m.pc = q.v] ELSE [s EXCEPT !.m.regs[q.r] = q.v]
    [] q.k = "sfreg" -> [s EXCEPT !.m.fregs[q.r] = q.v]
    [] q.k = "sm"  -> [s EXCEPT !.m.mem = [k \in DOMAIN @ |-> IF k > q.a /\ k <= q.a + Len(q.v) THEN q.v[k - q.a] ELSE @[k]]]
    [] q.k \in Evals -> LET r == Evaluated(s, q) IN
                        [s EXCEPT !.m = r.m, !.vals = IF q.k = "ev" /\ r.st = "ok" THEN Append(@, r.v) ELSE @]
    [] OTHER -> s
\* an expression that fails may have assigned something before
Rejected(s, q) == IF q.k \in Evals THEN Do(s, q) ELSE s
\* registers, and so IP and variables, are not specified after a CPU error
Unspecified(s, q) == q.k \in Evals \cup {"loc"} /\ (s.ev.e = "err" \/ (q.k # "loc" /\ Evaluated(s, q).st = "undef"))

Okay == [t |-> "ok"]
NumR(n) == [t |-> "num", v |-> FromInt(n)]
Answer(s, q0) ==
  LET q == Desugar(s, q0) IN
  CASE q0.k \in DOMAIN LineCmd -> NumR(q.a)
    [] q.k = "rt" -> [t |-> "text", ins |-> [k \in 1..q.n |-> s.text[q.a + k]]]
    [] q.k = "rm" -> [t |-> "mem", m |-> [k \in 1..q.n |-> s.m.mem[q.a + k]]]
    [] q.k = "reg" -> [t |-> "num", v |-> IF q.r = "IP" THEN s.m.pc ELSE s.m.regs[q.r]]
    [] q.k = "freg" -> [t |-> "num", v |-> s.m.fregs[q.r]]
    [] q.k = "ip" -> [t |-> "num", v |-> s.m.pc]
    [] q.k = "ts" -> NumR(Len(s.text))
    [] q.k = "l2a" -> IF AddrOfLine(s, q.l) = -1 THEN [t |-> "none"] ELSE NumR(AddrOfLine(s, q.l))
    [] q.k = "a2l" -> IF LinesAt(s, FromInt(q.a)) = {} THEN [t |-> "none"] ELSE NumR(MaxOf(LinesAt(s, FromInt(q.a))))
    [] q.k = "ev" -> [t |-> "val", i |-> Len(s.vals), v |-> Evaluated(s, q).v]
    [] q.k = "evn" -> [t |-> "val", i |-> -1, v |-> Evaluated(s, q).v]
    [] q.k = "evs" -> [t |-> "show", ty |-> ShowType(s.types, Evaluated(s, q).v), s |-> Shown(s, q).s]
    [] q.k = "loc" -> IF HasLoc(s, q.n) THEN [t |-> "loc", l |-> LocOf(s, q.n).l] ELSE [t |-> "none"]
    [] q.k = "addr" -> NumR(AddrFor(s, q))
    [] q.k = "fname" -> LET F == FunctionAt(s.die, q.a) IN IF F = {} THEN [t |-> "none"] ELSE [t |-> "str", s |-> (CHOOSE f \in F : TRUE).name]
    [] q.k = "faddr" -> LET F == FunctionNamed(s.die, q.n) IN
                        IF F = {} THEN [t |-> "none"] ELSE LET f == CHOOSE f \in F : TRUE IN [t |-> "range", b |-> f.b, e |-> f.e]
    [] OTHER -> Okay
Answers(s, q, res) ==
  CASE q.k = "vars" -> res.t = "names" /\ Rng(res.l) = ActiveNames(s.die, q.a)
    [] q.k = "freg" -> res.t = "num" /\ FSame(res.v, s.m.fregs[q.r])
    [] q.k = "evs" /\ HasFloat(Evaluated(s, q).v) -> res.t = "show" /\ res.ty = ShowType(s.types, Evaluated(s, q).v)
    [] OTHER -> res = Answer(s, q)
\* registers are not specified after a CPU error
Vague(s, q) == s.ev.e = "err" /\ q.k \in {"reg", "freg", "ip"}
=============================================================================
