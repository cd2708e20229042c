-------------------------------- MODULE Lex --------------------------------
(* The lexical structure of the SQL dialects, character by character, and the meaning of quoted tokens.  A trace is a
   statement generated for names and texts made of characters that are special to SQL, together with the same statement
   for plain names (slots "S:1", "S:2", ...).  The two are read in lockstep: they must consist of the same tokens, and
   every identifier and string must denote the plain one with the slots replaced by the original texts.             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

Spaces == {" ", "\n", "\r", "\t", "\f"}
MySql(d) == d = "mysql"
Nested(d) == d \in {"postgresql", "mssql"}      \* comments nest

At(s, i) == IF i <= Len(s) THEN s[i] ELSE "<end>"

(* end of a line comment, of a block comment *)
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) \/ s[i] = "\n" THEN i ELSE LineEnd(s, i + 1)
RECURSIVE BlockEnd(_, _, _, _)
BlockEnd(d, s, i, depth) ==
    IF i > Len(s) THEN i
    ELSE IF s[i] = "*" /\ At(s, i + 1) = "/" THEN (IF depth = 1 THEN i + 2 ELSE BlockEnd(d, s, i + 2, depth - 1))
    ELSE IF Nested(d) /\ s[i] = "/" /\ At(s, i + 1) = "*" THEN BlockEnd(d, s, i + 2, depth + 1)
    ELSE BlockEnd(d, s, i + 1, depth)

(* what a backslash and the next character stand for *)
Escaped(d, c) ==
    CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] c = "b" -> "<bs>"
      [] c = "f" /\ d = "postgresql" -> "\f"
      [] c = "0" /\ MySql(d) -> "<nul>" [] c = "Z" /\ MySql(d) -> "<sub>"
      [] c \in {"%", "_"} /\ MySql(d) -> "\\" \o c
      [] OTHER -> c

(* the body of a token that ends with q, in which a doubled q stands for q: its text and the position after it *)
RECURSIVE Quoted(_, _, _, _, _, _)
Quoted(d, s, i, q, backslash, text) ==
    IF i > Len(s) THEN [ok |-> FALSE, text |-> text, at |-> i]
    ELSE IF s[i] = q THEN (IF At(s, i + 1) = q THEN Quoted(d, s, i + 2, q, backslash, Append(text, q)) ELSE [ok |-> TRUE, text |-> text, at |-> i + 1])
    ELSE IF backslash /\ s[i] = "\\" /\ i < Len(s) THEN Quoted(d, s, i + 2, q, backslash, Append(text, Escaped(d, s[i + 1])))
    ELSE Quoted(d, s, i + 1, q, backslash, Append(text, s[i]))
Token(kind, r) == [kind |-> IF r.ok THEN kind ELSE "open " \o kind, text |-> r.text, at |-> r.at]

(* names of dollar quotes; the body of a dollar quote *)
RECURSIVE Dollar(_, _, _, _)
Dollar(s, i, tag, text) ==
    IF i > Len(s) THEN [ok |-> FALSE, text |-> text, at |-> i]
    ELSE IF s[i] = "$" /\ SubSeq(s, i, IF i + Len(tag) - 1 <= Len(s) THEN i + Len(tag) - 1 ELSE Len(s)) = tag THEN [ok |-> TRUE, text |-> text, at |-> i + Len(tag)]
    ELSE Dollar(s, i + 1, tag, Append(text, s[i]))
Digits == {"1", "2", "3", "4", "5", "6", "7", "8", "9"}

RECURSIVE Lex(_, _, _)
Lex(d, s, i) ==
    LET c == At(s, i)
        n == At(s, i + 1) IN
    IF i > Len(s) THEN [kind |-> "end", text |-> <<>>, at |-> i]
    ELSE IF c \in Spaces THEN Lex(d, s, i + 1)
    ELSE IF c = "-" /\ n = "-" /\ (MySql(d) => At(s, i + 2) \in Spaces \cup {"<end>"}) THEN Lex(d, s, LineEnd(s, i))
    ELSE IF c = "#" /\ MySql(d) THEN Lex(d, s, LineEnd(s, i))
    ELSE IF c = "/" /\ n = "*" THEN Lex(d, s, BlockEnd(d, s, i + 2, 1))
    ELSE IF c = "'" THEN Token("str", Quoted(d, s, i + 1, "'", MySql(d), <<>>))
    ELSE IF c \in {"E", "e"} /\ n = "'" /\ d = "postgresql" THEN Token("str", Quoted(d, s, i + 2, "'", TRUE, <<>>))
    ELSE IF c \in {"N", "n"} /\ n = "'" THEN Token("str", Quoted(d, s, i + 2, "'", MySql(d), <<>>))
    ELSE IF c = "\"" /\ d = "oracle" THEN      \* there is no way to write a double quote in an identifier
        LET r == Quoted(d, s, i + 1, "\"", FALSE, <<>>) IN
        IF \E k \in DOMAIN r.text : r.text[k] = "\"" THEN [kind |-> "bad id", text |-> r.text, at |-> r.at] ELSE Token("id", r)
    ELSE IF c = "\"" THEN Token("id", Quoted(d, s, i + 1, "\"", FALSE, <<>>))
    ELSE IF c = "`" /\ MySql(d) THEN Token("id", Quoted(d, s, i + 1, "`", FALSE, <<>>))
    ELSE IF c = "[" /\ d = "mssql" THEN Token("id", Quoted(d, s, i + 1, "]", FALSE, <<>>))
    ELSE IF c = "$" /\ d = "postgresql" /\ n = "$" THEN Token("str", Dollar(s, i + 2, <<"$", "$">>, <<>>))
    ELSE IF c = "$" /\ d = "postgresql" /\ At(s, i + 2) = "$" /\ n \notin Digits THEN Token("str", Dollar(s, i + 3, <<"$", n, "$">>, <<>>))
    ELSE [kind |-> "plain", text |-> <<c>>, at |-> i + 1]

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Flat(Tail(s))
(* the text with the slots replaced *)
IsSlot(c) == Len(c) > 2 /\ SubSeq(c, 1, 2) = "S:"
RECURSIVE LikeEscape(_)
LikeEscape(t) == IF t = <<>> THEN <<>> ELSE (IF Head(t) \in {"%", "_", "~"} THEN <<"~", Head(t)>> ELSE <<Head(t)>>) \o LikeEscape(Tail(t))
RECURSIVE Filled(_, _, _)
Filled(t, slots, like) == IF t = <<>> THEN <<>>
    ELSE (IF IsSlot(Head(t)) THEN (IF like THEN LikeEscape(slots[Head(t)]) ELSE slots[Head(t)]) ELSE <<Head(t)>>) \o Filled(Tail(t), slots, like)

VARIABLES tr, ih, ib, before, step, verdict
vars == <<tr, ih, ib, before, step, verdict>>
T == Traces[tr]

RECURSIVE Tokens(_, _, _)
Tokens(d, s, i) == LET t == Lex(d, s, i) IN IF t.kind = "end" THEN <<>> ELSE <<t>> \o Tokens(d, s, t.at)

Where(b) == Flat(b.text)
Agree(h, b, slots, like) == h.kind = b.kind /\ Flat(h.text) = Flat(Filled(b.text, slots, like))
(* a statement inside a string *)
SameInside(d, h, b, slots) ==
    LET th == Tokens(d, h.text, 1)
        tb == Tokens(d, b.text, 1) IN
    Len(th) = Len(tb) /\ \A k \in DOMAIN tb : Agree(th[k], tb[k], slots, FALSE)
Dynamic == before = <<"EXEC", "(">> \/ before[2] = "IMMEDIATE"

Judge(h, b) ==
    IF b.kind \in {"open str", "open id", "bad id"} THEN "machinery: the plain statement does not lex"
    ELSE IF h.kind # b.kind THEN "quoting: " \o h.kind \o " instead of " \o b.kind \o " " \o Where(b)
    ELSE IF b.kind = "str" /\ Dynamic THEN (IF SameInside(T.dialect, h, b, T.slots) THEN "" ELSE "quoting: dynamic statement " \o Where(b))
    ELSE IF b.kind = "str" /\ At(Lex(T.dialect, T.plain, b.at).text, 1) = "ESCAPE"
         THEN (IF Agree(h, b, T.slots, TRUE) THEN "" ELSE "quoting: pattern " \o Where(b) \o " does not denote the name")
    ELSE IF Agree(h, b, T.slots, FALSE) THEN "" ELSE "quoting: " \o b.kind \o " " \o Where(b) \o " does not denote the text"

Init == /\ tr \in DOMAIN Traces /\ ih = 1 /\ ib = 1 /\ before = <<"", "">> /\ step = 0 /\ verdict = "-"
Next == /\ verdict = "-"
        /\ LET h == Lex(T.dialect, T.hostile, ih)
               b == Lex(T.dialect, T.plain, ib)
               v == Judge(h, b) IN
           /\ verdict' = IF v # "" THEN v ELSE IF b.kind = "end" THEN "OK" ELSE "-"
           /\ ih' = h.at /\ ib' = b.at
           /\ before' = <<before[2], IF b.kind = "plain" THEN b.text[1] ELSE b.kind>>
        /\ step' = step + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Emit == verdict = "-" \/ PrintT("V|" \o ToString(tr) \o "|" \o ToString(step) \o "|" \o verdict)
=============================================================================
