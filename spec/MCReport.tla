------------------------------ MODULE MCReport ------------------------------
(***************************************************************************)
(* What a failed read of a document over an alphabet has to report, and    *)
(* which texts are accepted as such a report.                              *)
(***************************************************************************)
EXTENDS Parser, Report, MCSetups, TLC

CONSTANT MaxLen

Chr == [k |-> "char"]
Str == [k |-> "str"]
Nex == [k |-> "nx", of |-> Chr, args |-> <<98>>]
Lists == {<<Chr>>, <<Str, Chr>>, <<Nex, Str>>}
Alphabet == {97, 44, 34, 10}

VARIABLES p, o, rows      \* rows read so far
vars == <<p, o, rows>>

Init == /\ \E d \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} :
              p = New(SetupMultiQ, Comma, "s", <<122>>, d, "ok").p
        /\ o = Obs /\ rows = 0
Next == /\ ~p.eof /\ \E T \in Lists : LET g == GetNext(p, T)
                                      IN  p' = g.p /\ o' = g.o
        /\ rows' = rows + 1
Spec == Init /\ [][Next]_vars

(* facts with other text between them *)
Text(facts) == FoldLeft(LAMBDA acc, f : acc \o <<32>> \o f.s \o <<58>>,
                        <<33>>, facts)
(* ... and then what is wrong *)
Full(f) == Text(Facts(f)) \o (CHOOSE c \in Cause(f) : TRUE)

Failed == o.st = "fail"

(* the report names file, line and cause *)
Named ==
    Failed => LET F == Facts(o.fail)
              IN  /\ Len(F) >= 2
                  /\ F[1] = TextFact(p.name)
                  /\ F[2] = NumFact(o.fail.line)
                  /\ Reports(Full(o.fail), o.fail)
                  /\ o.fail.w \in {"quote", "mismatched", "limit", "eof"} =>
                        ~Reports(Text(F), o.fail)

(* the line is the last line of the row that failed: the one in front of
   the cursor *)
LineNamed ==
    Failed => o.fail.line = p.line /\ p.line >= rows

(* a report with another number, or without one of the facts, is not
   accepted (unless the numbers happen to be the same) *)
Discerning ==
    Failed =>
      LET F == Facts(o.fail)
      IN  \A i \in 1..Len(F) :
            IF F[i].n
            THEN /\ ~Reports(Text([F EXCEPT ![i].s = <<55, 55>>]), o.fail)
                 /\ ~Reports(Text([F EXCEPT ![i].s = @ \o <<ZERO>>]), o.fail)
            ELSE F[i].s # <<>> /\ F[i].s[1] > 97 =>
                 ~Reports(Text([F EXCEPT ![i].s = <<>>]), o.fail)
=============================================================================
