------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Program text as tokens: the lexical level shared by assembly, data and  *)
(* debug-information sections.  Text is a sequence of one-character        *)
(* strings.  A token is [k, s, v]:                                         *)
(*   k = "id"    s the name, v = [c first character, d rest all digits,    *)
(*               n length, z second character is 0]                        *)
(*   k = "num"   v the value as a word, s the digits                       *)
(*   k = "flt"   s the text                                                *)
(*   k = "str"   v the character codes                                     *)
(*   k = "junk"  a character no token begins with                          *)
(*   k = "bad"   a malformed number, string or escape: nothing follows     *)
(*   otherwise k is the punctuation itself                                 *)
(* and e is the number of characters up to and including an identifier.    *)
(* Spaces and comments (# to the end of the line) only separate tokens.    *)
(***************************************************************************)
EXTENDS Word64

Digits == <<"0","1","2","3","4","5","6","7","8","9">>
DigitVal == [c \in {Digits[i] : i \in 1..10} |-> CHOOSE i \in 0..9 : Digits[i+1] = c]
IsDigit(c) == c \in DOMAIN DigitVal
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
IsAlpha(c) == c \in Lower \/ c \in Upper \/ c = "_"
Spaces == {" ", "\n", "\t", "\r", "\f"}
\* the printable characters in ASCII order, from code 32
Printable == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
  "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
  "[","\\","]","^","_","`",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
  "{","|","}","~">>
CodeOf == [c \in {Printable[i] : i \in 1..95} \cup {"\n", "\t", "\r", "\f"} |->
             CASE c = "\n" -> 10 [] c = "\t" -> 9 [] c = "\r" -> 13 [] c = "\f" -> 12
               [] OTHER -> 31 + CHOOSE i \in 1..95 : Printable[i] = c]
CharOf == [n \in {CodeOf[c] : c \in DOMAIN CodeOf} |-> CHOOSE c \in DOMAIN CodeOf : CodeOf[c] = n]
Single == {";", ",", "[", "]", "{", "}", "(", ")", "%", "+", ":", "/", "*", "`", "$", ".", "^"}
\* characters that may start a two-character token
Double == {"!", "=", "-", ">", "<", "&", "|"}
Pairs == {"!=", "==", "->", ">=", ">>", "<=", "<<", "&&", "||"}

Times10(x, d) ==
  LET a == x[1] * 10 + d
      b == x[2] * 10 + (a \div B)
      c == x[3] * 10 + (b \div B)
      e == x[4] * 10 + (c \div B)
  IN IF e >= B \/ x = Ones THEN Ones ELSE <<a % B, b % B, c % B, e % B>>   \* saturating

L0 == [m |-> "start", s |-> "", v |-> <<>>, ts |-> <<>>, p |-> 0]
Put(st, k, s, v) == [m |-> "start", s |-> "", v |-> <<>>, ts |-> Append(st.ts, [k |-> k, s |-> s, v |-> v, e |-> st.p]), p |-> st.p]
Dead(st) == [Put(st, "bad", "", <<>>) EXCEPT !.m = "dead"]

Begin(st, c) ==
  CASE c = "#" -> [st EXCEPT !.m = "cmt"]
    [] c \in Spaces -> st
    [] c \in Single -> Put(st, c, "", <<>>)
    [] c \in Double -> [st EXCEPT !.m = "op", !.s = c]
    [] c = "\"" -> [st EXCEPT !.m = "str", !.v = <<>>]
    [] IsDigit(c) -> [st EXCEPT !.m = "num", !.s = c, !.v = FromInt(DigitVal[c])]
    [] IsAlpha(c) -> [st EXCEPT !.m = "id", !.s = c, !.v = [c |-> c, d |-> FALSE, n |-> 1, z |-> FALSE]]
    [] OTHER -> Put(st, "junk", c, <<>>)

\* what is pending becomes a token
Flush(st) ==
  CASE st.m = "id" -> Put(st, "id", st.s, st.v)
    [] st.m = "num" -> Put(st, "num", st.s, st.v)
    [] st.m = "flt" -> Put(st, "flt", st.s, <<>>)
    [] st.m = "op" -> Put(st, st.s, "", <<>>)
    [] st.m \in {"str", "esc"} -> Dead(st)
    [] OTHER -> [st EXCEPT !.m = "start"]

Lex1(st, c) ==
  CASE st.m = "dead" -> st
    [] st.m = "start" -> Begin(st, c)
    [] st.m = "cmt" -> IF c = "\n" THEN [st EXCEPT !.m = "start"] ELSE st
    [] st.m = "id" ->
         IF IsAlpha(c) \/ IsDigit(c)
         THEN [st EXCEPT !.s = @ \o c,
                         !.v = [c |-> @.c, d |-> IF @.n = 1 THEN IsDigit(c) ELSE @.d /\ IsDigit(c),
                                n |-> @.n + 1, z |-> IF @.n = 1 THEN c = "0" ELSE @.z]]
         ELSE Begin(Flush(st), c)
    [] st.m = "num" ->
         IF IsDigit(c) THEN [st EXCEPT !.s = @ \o c, !.v = Times10(@, DigitVal[c])]
         ELSE IF c = "." THEN [st EXCEPT !.m = "flt", !.s = @ \o c]
         ELSE Begin(Flush(st), c)
    [] st.m = "flt" ->
         IF IsDigit(c) THEN [st EXCEPT !.s = @ \o c] ELSE IF c = "." THEN Dead(st) ELSE Begin(Flush(st), c)
    [] st.m = "op" -> IF (st.s \o c) \in Pairs THEN Put(st, st.s \o c, "", <<>>) ELSE Begin(Flush(st), c)
    [] st.m = "str" ->
         IF c = "\"" THEN Put(st, "str", "", st.v)
         ELSE IF c = "\\" THEN [st EXCEPT !.m = "esc"]
         ELSE [st EXCEPT !.v = Append(@, CodeOf[c])]
    [] st.m = "esc" ->
         CASE c = "n" -> [st EXCEPT !.m = "str", !.v = Append(@, 10)]
           [] c = "t" -> [st EXCEPT !.m = "str", !.v = Append(@, 9)]
           [] c = "\\" -> [st EXCEPT !.m = "str", !.v = Append(@, 92)]
           [] c = "\"" -> [st EXCEPT !.m = "str", !.v = Append(@, 34)]
           [] OTHER -> Dead(st)

LexP(st, c) == [Lex1(st, c) EXCEPT !.p = @ + 1]
Tokens(text) == Flush(FoldLeft(LexP, L0, text)).ts
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
=============================================================================
