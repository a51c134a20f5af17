------------------------------ MODULE MCSplit ------------------------------
(***************************************************************************)
(* Every row over an alphabet: the automaton of Split against properties   *)
(* which do not mention automata.                                          *)
(***************************************************************************)
EXTENDS MCSetups

CONSTANTS Alphabet, MaxLen, MCSetup, Delim

VARIABLE row

Init == row = <<>>
Next == Len(row) < MaxLen /\ \E c \in Alphabet : row' = Append(row, c)
Spec == Init /\ [][Next]_row

S == MCSetup
D == Delim
R == SplitRow(S, D, row)

ASSUME WellFormed(S, D)

-----------------------------------------------------------------------------
(* rows without quotes and escapes: cut at the occurrences of the delimiter *)
RECURSIVE Cut(_)
Cut(s) == LET i == IndexFrom(s, D, 1)
          IN  IF i = 0 THEN <<s>>
              ELSE <<SubSeq(s, 1, i - 1)>> \o Cut(Tail2(s, i + Len(D) - 1))

TrimL(s) == LET i == SelectInSeq(s, LAMBDA c : c \notin S.tl)
            IN  IF i = 0 THEN <<>> ELSE Tail2(s, i - 1)
TrimR(s) == LET i == SelectLastInSeq(s, LAMBDA c : c \notin S.tr)
            IN  SubSeq(s, 1, i)

Delimited ==
    row # <<>> =>
        /\ R.err = ""
        /\ R.f = [i \in 1..Len(Cut(row)) |-> TrimR(TrimL(Cut(row)[i]))]

(* nothing is lost *)
Verbatim == row # <<>> => Join(R.f, D) = row

-----------------------------------------------------------------------------
(* rows with quotes, escapes and spacing *)

Total(fs) == FoldLeft(LAMBDA n, f : n + Len(f), 0, fs)

(* fields and delimiters are not longer than the row; every field is a
   subsequence of the row: decoding only leaves characters out *)
RECURSIVE SubseqOf(_, _, _, _)
SubseqOf(a, i, b, j) ==
    IF i > Len(a) THEN TRUE
    ELSE IF j > Len(b) THEN FALSE
    ELSE IF a[i] = b[j] THEN SubseqOf(a, i + 1, b, j + 1)
    ELSE SubseqOf(a, i, b, j + 1)

Bounded ==
    R.err = "" /\ row # <<>> =>
        /\ Total(R.f) + (Len(R.f) - 1) * Len(D) <= Len(row)
        /\ SubseqOf(Join(R.f, D), 1, row, 1)

(* what is decided about a row does not depend on what follows; a malformed
   row stays malformed whatever follows (if the delimiter is one character
   there is no need to look ahead) *)
Prefix ==
    Len(D) = 1 /\ row # <<>> =>
        LET a == Feed(S, D, Start, SubSeq(row, 1, Len(row) - 1))
            b == Feed(S, D, Start, row)
        IN  /\ Len(a.out) <= Len(b.out)
            /\ SubSeq(b.out, 1, Len(a.out)) = a.out
            /\ a.m = "bad" => b.m = "bad"

(* which rows can be malformed in which way *)
Open ==
    /\ R.err = "quote" => S.q # {} /\ \E i \in 1..Len(row) : row[i] \in S.q
    /\ S.q = {} => R.err \in {"", "escape"}
    /\ S.e = {} => R.err \in {"", "quote", "mismatched"}
    /\ (R.err = "escape") = (OpenEscape(S, row) /\ R.err # "mismatched")

(* a mismatched quote is a quote that closes a field *)
Offence ==
    R.err = "mismatched" =>
        /\ R.at \in 0..(Len(row) - 2)
        /\ row[R.at + 1] \in S.q
        /\ SplitRow(S, D, SubSeq(row, 1, R.at + 1)).err = ""
=============================================================================
