------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Texts are sequences of byte values 0..255.  TLC's integers are 32 bit,  *)
(* so numbers which may be larger are kept as sequences of decimal digits. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

NUL == 0    TAB == 9    LF == 10    CR == 13    SP == 32
MINUS == 45 DOT == 46   ZERO == 48  NINE == 57
EOLs == {LF, CR}

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

IsDigit(c) == c >= ZERO /\ c <= NINE

AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])

Tail2(s, n) == SubSeq(s, n + 1, Len(s))          \* drop the first n

(* text of a natural number *)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<ZERO + n>>
              ELSE NatText(n \div 10) \o <<ZERO + (n % 10)>>

IntText(n) == IF n < 0 THEN <<MINUS>> \o NatText(-n) ELSE NatText(n)

(* first index >= p at which t occurs in s, 0 if there is none *)
IndexFrom(s, t, p) ==
    IF Len(t) = 0 THEN (IF p <= Len(s) + 1 THEN p ELSE 0)
    ELSE IF p + Len(t) - 1 > Len(s) THEN 0
    ELSE LET Hit(i) == s[i] = t[1] /\ SubSeq(s, i, i + Len(t) - 1) = t
             last   == Len(s) - Len(t) + 1
             idx    == SelectInSeq([i \in 1..(last - p + 1) |-> i + p - 1], Hit)
         IN  IF idx = 0 THEN 0 ELSE idx + p - 1

Has(s, t) == IndexFrom(s, t, 1) # 0

(* first index >= p at which t occurs in s as a complete run of digits *)
NumberFrom(s, t, p) ==
    LET Whole(i) == /\ i + Len(t) - 1 <= Len(s)
                    /\ SubSeq(s, i, i + Len(t) - 1) = t
                    /\ (i = 1 \/ ~IsDigit(s[i - 1]))
                    /\ (i + Len(t) > Len(s) \/ ~IsDigit(s[i + Len(t)]))
        n == Len(s) - p + 1
        idx == IF n < 1 THEN 0
               ELSE SelectInSeq([i \in 1..n |-> i + p - 1], Whole)
    IN  IF idx = 0 THEN 0 ELSE idx + p - 1

(* index of the first byte c at or after p, 0 if there is none *)
ByteFrom(s, c, p) ==
    IF p > Len(s) THEN 0
    ELSE SelectInSubSeq(s, p, Len(s), LAMBDA x : x = c)

(* index of the first digit which is not '0', Len + 1 if there is none *)
FirstNonZero(s) == LET i == SelectInSeq(s, LAMBDA x : x # ZERO)
                   IN  IF i = 0 THEN Len(s) + 1 ELSE i

(* digits without leading zeros: <<>> is the number 0 *)
Strip(s) == SubSeq(s, FirstNonZero(s), Len(s))

(* comparison of stripped digit sequences *)
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF a[i] < b[i] THEN TRUE
                   ELSE IF a[i] > b[i] THEN FALSE
                   ELSE LexLeq(a, b, i + 1)
DigitsLeq(a, b) == \/ Len(a) < Len(b)
                   \/ Len(a) = Len(b) /\ LexLeq(a, b, 1)

(* value of at most 9 digits *)
SmallNat(s) == FoldLeft(LAMBDA n, c : 10 * n + (c - ZERO), 0, s)

(* a text in the making, in two parts: what is added is added to the second
   one, which is kept short (long texts would be copied at each step) *)
NoText     == [head |-> <<>>, tail |-> <<>>]
TextOf(t)  == t.head \o t.tail
Added(t, c) == IF Len(t.tail) < 500 THEN [t EXCEPT !.tail = Append(@, c)]
               ELSE [head |-> TextOf(t), tail |-> <<c>>]
AddedAll(t, s) == FoldLeft(Added, t, s)

Join(seqs, sep) ==
    FoldLeft(LAMBDA acc, i : (IF i = 1 THEN acc ELSE acc \o sep) \o seqs[i],
             <<>>, [i \in 1..Len(seqs) |-> i])
=============================================================================
