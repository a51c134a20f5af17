------------------------------- MODULE MCLoop -------------------------------
(***************************************************************************)
(* From every position of every document a loop gives the rows that single *)
(* reads give.                                                             *)
(***************************************************************************)
EXTENDS MCParser

(* n reads, as a sequence of observations *)
RECURSIVE Reads(_, _, _)
Reads(p, T, n) == IF n = 0 \/ p.eof THEN [p |-> p, x |-> <<>>]
                  ELSE LET g == GetNext(p, T)
                           r == Reads(g.p, T, n - 1)
                       IN  [p |-> r.p, x |-> <<g.o>> \o r.x]

SameAsReads ==
    \A T \in Lists, n \in {0, 1, 2, 100} :
        LET l == Loop(P, T, n, <<>>)
            r == Reads(P, T, n)
        IN  /\ l.p = r.p /\ l.o.x = r.x
            /\ P.eof => l.o.x = <<>>
            /\ n = 100 => l.p.eof
            /\ Len(r.x) <= LinesLeft(P)

(* a body which reads takes every other row, one which ignores leaves it out *)
RECURSIVE Others(_, _, _, _)
Others(p, T, B, n) ==
    IF p.eof THEN [p |-> p, x |-> <<>>]
    ELSE LET g == GetNext(p, T)
             b == IF B = <<>> THEN IgnoreNext(g.p) ELSE GetNext(g.p, B)
             r == Others(b.p, T, B, n)
         IN  [p |-> r.p, x |-> <<g.o>> \o (IF B = <<>> THEN <<>> ELSE <<b.o>>)
                               \o r.x]

BodiesToo ==
    \A T \in Lists, B \in Lists \cup {<<>>} :
        LET l == LoopWith(P, T, 100, B, <<>>)
            r == Others(P, T, B, 100)
        IN  /\ l.p = r.p /\ l.o.x = r.x /\ l.p.eof
            /\ LoopWith(P, T, 1, B, <<>>) = Loop(P, T, 1, <<>>)
=============================================================================
