------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* The meaning of one row: an automaton which reads the row one character  *)
(* at a time and produces the fields, or finds out that the row is         *)
(* malformed.  It is the contract of ss::splitter, independent of the way  *)
(* the splitter decodes fields in place.                                   *)
(*                                                                         *)
(* A setup S is a record with                                              *)
(*   q, e, tl, tr  sets of characters: quote, escape, trim left/right      *)
(*   ml, lim       multiline enabled, and its limit (0: none)              *)
(*   ie, ih        ignore_empty, ignore_header                             *)
(* A delimiter D is a sequence of characters.                              *)
(***************************************************************************)
EXTENDS Bytes

(* setups and delimiters whose characters do not contradict each other; the
   meaning of the others is left open *)
WellFormed(S, D) ==
    /\ S.q \cap S.e = {}
    /\ (S.q \cup S.e) \cap (S.tl \cup S.tr) = {}
    /\ \A i \in 1..Len(D) : D[i] \notin S.q \cup S.e \cup EOLs \cup {NUL}
    /\ Len(D) > 0 => D[1] \notin S.tl \cup S.tr
    /\ (S.q \cup S.e \cup S.tl \cup S.tr) \cap (EOLs \cup {NUL}) = {}

(***************************************************************************)
(* Modes of the automaton                                                  *)
(*   "start"   at the start of a field, left spacing may follow            *)
(*   "plain"   inside of a field that does not start with a quote          *)
(*   "pesc"    the same, behind an escape                                  *)
(*   "quoted"  inside of quotes                                            *)
(*   "qesc"    the same, behind an escape                                  *)
(*   "closed"  right behind a closing quote (or the first of two)          *)
(*   "spaces"  behind a closing quote and at least one spacing character   *)
(*   "bad"     the row is malformed                                        *)
(* cur: text of the field so far, pend: spacing that belongs to the field  *)
(* only if more text follows, out: finished fields, skip: characters of    *)
(* the delimiter still to be passed, at: offset of an offending quote      *)
(***************************************************************************)
Start == [m |-> "start", skip |-> 0, cur |-> NoText, pend |-> <<>>,
          out |-> <<>>, at |-> 0]

DelimAt(D, row, i) ==
    /\ row[i] = D[1]
    /\ \/ Len(D) = 1
       \/ i + Len(D) - 1 <= Len(row) /\ SubSeq(row, i, i + Len(D) - 1) = D

EndField(a, D) ==
    [a EXCEPT !.m = "start", !.skip = Len(D) - 1, !.cur = NoText, !.pend = <<>>,
              !.out = Append(@, TextOf(a.cur))]

(* a character of a field that is not quoted *)
Plain(S, D, row, a, i) ==
    LET c == row[i]
    IN  IF DelimAt(D, row, i) THEN EndField(a, D)
        ELSE IF c \in S.tr THEN [a EXCEPT !.m = "plain", !.pend = Append(@, c)]
        ELSE IF c \in S.e
             THEN [a EXCEPT !.m = "pesc", !.cur = AddedAll(@, a.pend), !.pend = <<>>]
        ELSE [a EXCEPT !.m = "plain", !.cur = Added(AddedAll(@, a.pend), c),
                       !.pend = <<>>]

Step(S, D, row, a, i) ==
    LET c == row[i]
    IN  IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
        ELSE CASE a.m = "plain"  -> Plain(S, D, row, a, i)
               [] a.m = "quoted" ->
                    IF c \in S.q THEN [a EXCEPT !.m = "closed", !.at = i - 1]
                    ELSE IF c \in S.e THEN [a EXCEPT !.m = "qesc"]
                    ELSE [a EXCEPT !.cur = Added(@, c)]
               [] a.m = "start"  ->
                    IF c \in S.tl THEN a
                    ELSE IF c \in S.q THEN [a EXCEPT !.m = "quoted"]
                    ELSE Plain(S, D, row, a, i)
               [] a.m = "pesc"   ->
                    [a EXCEPT !.m = "plain", !.cur = Added(@, c)]
               [] a.m = "qesc"   ->
                    [a EXCEPT !.m = "quoted", !.cur = Added(@, c)]
               [] a.m \in {"closed", "spaces"} ->
                    IF DelimAt(D, row, i) THEN EndField(a, D)
                    ELSE IF c \in S.tr THEN [a EXCEPT !.m = "spaces"]
                    ELSE IF c \in S.q /\ a.m = "closed"
                         THEN [a EXCEPT !.m = "quoted", !.cur = Added(@, c)]
                    ELSE [a EXCEPT !.m = "bad"]
               [] OTHER -> a

(* the automaton after a further piece of text *)
Feed(S, D, a, text) ==
    FoldLeftDomain(LAMBDA acc, i : Step(S, D, text, acc, i), a, text)

(* the result at the end of a row; err is "" for a well-formed row *)
Finish(a) ==
    CASE a.m = "bad"               -> [err |-> "mismatched", f |-> <<>>]
      [] a.m \in {"pesc", "qesc"}  -> [err |-> "escape", f |-> <<>>]
      [] a.m = "quoted"            -> [err |-> "quote", f |-> <<>>]
      [] OTHER                     -> [err |-> "", f |-> Append(a.out, TextOf(a.cur))]

(* a complete row: no field in an empty row *)
SplitRow(S, D, row) ==
    IF row = <<>> THEN [err |-> "", f |-> <<>>, at |-> 0]
    ELSE IF D = <<>> THEN [err |-> "delimiter", f |-> <<>>, at |-> 0]
    ELSE LET a == Feed(S, D, Start, row)
             r == Finish(a)
         IN  [err |-> r.err, f |-> r.f, at |-> a.at]
=============================================================================
