------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The report of a failure has to name facts, in a fixed order: the file,  *)
(* the line, and what is wrong.  The wording between them is free.         *)
(***************************************************************************)
EXTENDS Convert

(* the text of an exception ends at a NUL *)
TextFact(s) == [n |-> FALSE,
                s |-> IF ByteFrom(s, NUL, 1) = 0 THEN s
                      ELSE SubSeq(s, 1, ByteFrom(s, NUL, 1) - 1)]
NumFact(n) == [n |-> TRUE, s |-> NatText(n)]

Place(f) == (IF f.name # <<>> THEN <<TextFact(f.name)>> ELSE <<>>)
            \o (IF f.line > 0 THEN <<NumFact(f.line)>> ELSE <<>>)

Facts(f) ==
    CASE f.w \in {"columns", "mapping"} ->
            Place(f) \o <<NumFact(f.exp), NumFact(f.got)>>
      [] f.w = "conversion" -> Place(f) \o <<NumFact(f.at), TextFact(f.text)>>
      [] f.w = "validation" ->
            Place(f) \o <<TextFact(f.msg), NumFact(f.at), TextFact(f.text)>>
      [] f.w = "mismatched" ->
            Place(f) \o (IF f.at >= 0 THEN <<NumFact(f.at)>> ELSE <<>>)
      [] f.w \in {"unknown", "repeated", "duplicate"} ->
            Place(f) \o <<TextFact(f.text)>>
      [] OTHER -> Place(f)

RECURSIVE Names2(_, _, _, _)
Names2(msg, facts, i, p) ==
    IF i > Len(facts) THEN TRUE
    ELSE LET k == IF facts[i].n THEN NumberFrom(msg, facts[i].s, p)
                  ELSE IndexFrom(msg, facts[i].s, p)
         IN  k # 0 /\ Names2(msg, facts, i + 1, k + Len(facts[i].s))

(* words one of which says what is wrong where there are no such facts; the *)
(* first letter may be a capital and is left out                             *)
Cause(f) ==
    CASE f.w \in {"quote", "mismatched"} -> {<<117, 111, 116, 101>>}
      [] f.w = "escape" -> {<<115, 99, 97, 112, 101>>}
      [] f.w = "limit"  -> {<<105, 109, 105, 116>>}
      [] f.w = "eof"    -> {<<110, 100>>, <<79, 70>>, <<111, 102>>}
      [] OTHER -> {<<>>}

Reports(msg, f) == /\ msg # <<>> /\ Names2(msg, Facts(f), 1, 1)
                   /\ \E c \in Cause(f) : Has(msg, c)
=============================================================================
