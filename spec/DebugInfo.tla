----------------------------- MODULE DebugInfo -----------------------------
(***************************************************************************)
(* The debug-information sections of a program file as their grammar reads *)
(* them (docs/source-info.md, src/debugger/Source/Parser.cpp):             *)
(*   .debug_line    line : address ...                                     *)
(*   .debug_info    one entry  TAG : { key : value , ... }                 *)
(*   .debug_source  everything after the header's line, verbatim           *)
(* All other sections are skipped.  Info(text) is                          *)
(*   [r "yes" | "no", hasline, line, hasinfo, info, hassrc, src, fl]       *)
(* line: sequence of pairs, src: the lines as sequences of characters.     *)
(* fl contains "may" if the text may be refused as well as accepted, and   *)
(* "undef" if nothing is said about it.                                    *)
(***************************************************************************)
EXTENDS Lexer

Tags == {"DIE_function", "DIE_primitive_type", "DIE_structured_type", "DIE_pointer_type", "DIE_array_type",
         "DIE_variable", "DIE_scope", "DIE_compilation_unit"}
NumAttrs == {"ATTR_type", "ATTR_id", "ATTR_begin_addr", "ATTR_end_addr", "ATTR_size"}
Attrs == NumAttrs \cup {"ATTR_name", "ATTR_members", "ATTR_location"}

Big(x) == x[2] >= 32768 \/ x[3] # 0 \/ x[4] # 0       \* beyond 2^31 - 1
No == [ok |-> FALSE]
Is(ts, i, k) == Kind(ts, i) = k
\* k1 k2 ... follow at i
Follow(ts, i, ks) == \A j \in DOMAIN ks : Kind(ts, i + j - 1) = ks[j]
WideAt(ts, i) == IF Big(ts[i].v) THEN {"may"} ELSE {}

---------------------------------------------------------------------------
(* ATTR_members: { offset : { type : name } , ... }                        *)
RECURSIVE MembersAt(_, _, _, _)
MembersAt(ts, i, acc, fl) ==
  IF Is(ts, i, "}") THEN [ok |-> TRUE, v |-> acc, nx |-> i + 1, fl |-> fl]
  ELSE IF ~Follow(ts, i, <<"num", ":", "{", "num", ":", "id", "}">>) THEN No
  ELSE LET a == Append(acc, [o |-> ts[i].v, ty |-> ts[i+3].v, n |-> ts[i+5].s])
           f == fl \cup WideAt(ts, i) \cup WideAt(ts, i + 3)
       IN IF Is(ts, i + 7, ",") THEN MembersAt(ts, i + 8, a, f)
          ELSE IF Is(ts, i + 7, "}") THEN MembersAt(ts, i + 7, a, f)
          ELSE No

(* Location programs                                                       *)
OffsetAt(ts, i) ==
  IF Is(ts, i, "num") THEN [ok |-> TRUE, v |-> ts[i].v, nx |-> i + 1, fl |-> WideAt(ts, i)]
  ELSE IF Is(ts, i, "-") /\ Is(ts, i + 1, "num") THEN [ok |-> TRUE, v |-> WNeg(ts[i+1].v), nx |-> i + 2, fl |-> WideAt(ts, i + 1)]
  ELSE No
Loc(op, n, r) == [op |-> op, n |-> n, r |-> r]
LocAt(ts, i) ==   \* one instruction
  LET o == OffsetAt(ts, i + 1)
  IN IF ~Is(ts, i, "id") THEN No
     ELSE CASE ts[i].s = "ADD" -> [ok |-> TRUE, v |-> Loc("add", Zero, ""), nx |-> i + 1, fl |-> {}]
            [] ts[i].s = "DEREFERENCE" -> [ok |-> TRUE, v |-> Loc("deref", Zero, ""), nx |-> i + 1, fl |-> {}]
            [] ts[i].s = "BASE_REG_OFFSET" -> IF o.ok THEN [o EXCEPT !.v = Loc("base", o.v, "")] ELSE No
            [] ts[i].s = "PUSH" ->
                 IF Is(ts, i + 1, "id") THEN [ok |-> TRUE, v |-> Loc("pushr", Zero, ts[i+1].s), nx |-> i + 2, fl |-> {}]
                 ELSE IF o.ok THEN [o EXCEPT !.v = Loc("push", o.v, "")] ELSE No
            [] OTHER -> No
RECURSIVE LocsAt(_, _, _, _)
LocsAt(ts, i, acc, fl) ==   \* inside [ ]
  IF Is(ts, i, "]") THEN [ok |-> TRUE, v |-> acc, nx |-> i + 1, fl |-> fl]
  ELSE LET o == LocAt(ts, i)
       IN IF ~o.ok THEN No
          ELSE IF Is(ts, o.nx, ";")
               \* a semicolon may end the program as well
               THEN LocsAt(ts, o.nx + 1, Append(acc, o.v), fl \cup o.fl \cup (IF Is(ts, o.nx + 1, "]") THEN {"may"} ELSE {}))
          ELSE IF Is(ts, o.nx, "]") THEN LocsAt(ts, o.nx, Append(acc, o.v), fl \cup o.fl)
          ELSE No
LocationAt(ts, i) ==
  IF Is(ts, i, "[") THEN LocsAt(ts, i + 1, <<>>, {})
  ELSE IF Is(ts, i, "`")
  THEN IF Is(ts, i + 1, "`") THEN [ok |-> TRUE, v |-> <<>>, nx |-> i + 2, fl |-> {}]
       ELSE LET o == LocAt(ts, i + 1)
            IN IF o.ok /\ Is(ts, o.nx, "`") THEN [ok |-> TRUE, v |-> <<o.v>>, nx |-> o.nx + 1, fl |-> o.fl] ELSE No
  ELSE No

(* key : value                                                             *)
Attr0 == [k |-> "", n |-> Zero, s |-> "", m |-> <<>>, l |-> <<>>]
StrOf(codes) == FoldLeft(LAMBDA a, c : a \o CharOf[c], "", codes)
AttrAt(ts, i) ==
  LET k == ts[i].s
      a == [Attr0 EXCEPT !.k = k]
      At(v, nx, fl) == [ok |-> TRUE, v |-> v, nx |-> nx, fl |-> fl]
      m == MembersAt(ts, i + 3, <<>>, {})
      l == LocationAt(ts, i + 2)
  IN IF ~Is(ts, i + 1, ":") THEN No
     ELSE IF k \in NumAttrs THEN (IF Is(ts, i + 2, "num") THEN At([a EXCEPT !.n = ts[i+2].v], i + 3, WideAt(ts, i + 2)) ELSE No)
     ELSE CASE k = "ATTR_name" ->
                 IF Is(ts, i + 2, "id") THEN At([a EXCEPT !.s = ts[i+2].s], i + 3, {})
                 ELSE IF Is(ts, i + 2, "str") THEN At([a EXCEPT !.s = StrOf(ts[i+2].v)], i + 3, {}) ELSE No
            [] k = "ATTR_members" -> IF Is(ts, i + 2, "{") /\ m.ok THEN At([a EXCEPT !.m = m.v], m.nx, m.fl) ELSE No
            [] k = "ATTR_location" -> IF l.ok THEN At([a EXCEPT !.l = l.v], l.nx, l.fl) ELSE No
            [] OTHER -> No

Die0(tag) == [tag |-> tag, at |-> <<>>, ch |-> <<>>]
RECURSIVE DieAt(_, _), BodyAt(_, _, _, _)
DieAt(ts, i) ==
  IF Follow(ts, i, <<"id", ":", "{">>) /\ ts[i].s \in Tags THEN BodyAt(ts, i + 3, Die0(ts[i].s), {}) ELSE No
BodyAt(ts, i, d, fl) ==
  IF Is(ts, i, "}") THEN [ok |-> TRUE, v |-> d, nx |-> i + 1, fl |-> fl]
  ELSE IF ~Is(ts, i, "id") THEN No
  ELSE LET x == IF ts[i].s \in Attrs THEN AttrAt(ts, i) ELSE IF ts[i].s \in Tags THEN DieAt(ts, i) ELSE No
           e == IF ts[i].s \in Attrs THEN [d EXCEPT !.at = Append(@, x.v)] ELSE [d EXCEPT !.ch = Append(@, x.v)]
       IN IF ~x.ok THEN No
          ELSE IF Is(ts, x.nx, ",") THEN BodyAt(ts, x.nx + 1, e, fl \cup x.fl)
          ELSE IF Is(ts, x.nx, "}") THEN BodyAt(ts, x.nx, e, fl \cup x.fl)
          ELSE No

---------------------------------------------------------------------------
(* Shape rules of the document that a reader may enforce or not            *)
RECURSIVE Odd(_, _)
Odd(d, top) ==
  \/ (d.tag = "DIE_compilation_unit") # top
  \/ \E i, j \in DOMAIN d.at : i # j /\ d.at[i].k = d.at[j].k
  \/ LET kids == {d.ch[i].tag : i \in DOMAIN d.ch}
     IN ~(kids \subseteq CASE d.tag = "DIE_compilation_unit" -> Tags \ {"DIE_scope", "DIE_compilation_unit"}
                           [] d.tag = "DIE_function" -> {"DIE_scope", "DIE_variable"}
                           [] d.tag = "DIE_scope" -> {"DIE_scope", "DIE_variable"}
                           [] OTHER -> {})
  \/ \E i \in DOMAIN d.ch : Odd(d.ch[i], FALSE)

---------------------------------------------------------------------------
(* Sections                                                                *)
Reject(acc, fl) == [acc EXCEPT !.r = "no", !.fl = @ \cup fl]
RECURSIVE LinesAt(_, _, _)
LinesAt(ts, i, acc) ==
  IF Kind(ts, i) \in {".", "end"} THEN [acc EXCEPT !.nx = i]
  ELSE IF ~Follow(ts, i, <<"num", ":", "num">>) THEN Reject(acc, {})
  ELSE LinesAt(ts, i + 3, [acc EXCEPT !.line = Append(@, <<ts[i].v, ts[i+2].v>>), !.fl = @ \cup WideAt(ts, i) \cup WideAt(ts, i + 2)])

Skip(ts, i) ==
  LET s == {j \in i..Len(ts) : ts[j].k \in {".", "bad"}}
  IN IF s = {} THEN Len(ts) + 1 ELSE CHOOSE j \in s : \A q \in s : j <= q

SplitLine(st, c) == IF c = "\n" THEN [ls |-> Append(st.ls, st.cur), cur |-> <<>>] ELSE [st EXCEPT !.cur = Append(@, c)]
LinesOf(text) == LET s == FoldLeft(SplitLine, [ls |-> <<>>, cur |-> <<>>], text)
                 IN IF s.cur = <<>> THEN s.ls ELSE Append(s.ls, s.cur)

RECURSIVE Sections(_, _, _, _)
Sections(text, ts, i, acc) ==
  IF Kind(ts, i) = "end" THEN acc
  ELSE IF ~Follow(ts, i, <<".", "id">>) THEN Reject(acc, {})
  ELSE LET name == ts[i+1].s
           e == ts[i+1].e
           rest == SubSeq(text, e + 2, Len(text))
           \* a section written twice
           Again(x) == IF x THEN {"undef"} ELSE {}
       IN IF name = "debug_source"
          THEN IF e < Len(text) /\ text[e + 1] # "\n" THEN Reject(acc, {"undef"})
               ELSE [acc EXCEPT !.hassrc = TRUE, !.src = LinesOf(rest)]
          ELSE IF name = "debug_line"
          THEN LET a == LinesAt(ts, i + 2, [acc EXCEPT !.hasline = TRUE, !.fl = @ \cup Again(acc.hasline)])
               IN IF a.r = "no" THEN a ELSE Sections(text, ts, a.nx, a)
          ELSE IF name = "debug_info"
          THEN IF Kind(ts, i + 2) \in {".", "end"}
               THEN Sections(text, ts, i + 2, [acc EXCEPT !.hasinfo = TRUE, !.info = Die0("none"), !.fl = @ \cup {"may"} \cup Again(acc.hasinfo)])
               ELSE LET d == DieAt(ts, i + 2)
                        fl == acc.fl \cup d.fl \cup (IF Odd(d.v, TRUE) THEN {"may"} ELSE {}) \cup Again(acc.hasinfo)
                    IN IF ~d.ok THEN Reject(acc, {})
                       ELSE Sections(text, ts, d.nx, [acc EXCEPT !.hasinfo = TRUE, !.info = d.v, !.fl = fl])
          ELSE LET j == Skip(ts, i + 2)
               IN IF Kind(ts, j) = "bad" \/ \E q \in (i + 2)..(j - 1) : ts[q].k = "num" /\ Big(ts[q].v) THEN Reject(acc, {"undef"})
                  ELSE Sections(text, ts, j, acc)

Info(text) == Sections(text, Tokens(text), 1, [r |-> "yes", hasline |-> FALSE, line |-> <<>>, hasinfo |-> FALSE, info |-> Die0("none"),
                                              hassrc |-> FALSE, src |-> <<>>, fl |-> {}, nx |-> 1])

\* the line table as a function; a line given two addresses says nothing
LineFun(ps) == {<<ps[i][1], ps[i][2]>> : i \in DOMAIN ps}
Functional(ps) == \A i, j \in DOMAIN ps : ps[i][1] = ps[j][1] => ps[i][2] = ps[j][2]
=============================================================================
