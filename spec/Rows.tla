-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* Cutting data into physical lines, and physical lines into rows.         *)
(* Positions are 1-based indices of the data; Len(data) + 1 is the end.    *)
(***************************************************************************)
EXTENDS Split

(* the physical line at position p: text, line ending, position after it *)
LineAt(d, p) ==
    LET nl == ByteFrom(d, LF, p)
        lf == nl # 0
        cr == lf /\ nl > p /\ d[nl - 1] = CR
        last == IF ~lf THEN Len(d) ELSE IF cr THEN nl - 2 ELSE nl - 1
    IN  [text |-> SubSeq(d, p, last),
         \* the end of the data can stand for a line end when a row is continued
         eol  |-> IF cr THEN <<CR, LF>> ELSE <<LF>>,
         next |-> IF lf THEN nl + 1 ELSE Len(d) + 1]

AtEnd(d, p) == p > Len(d)

(* blank lines in front of the next row: [p, n] position, lines skipped *)
RECURSIVE SkipBlank(_, _, _)
SkipBlank(d, p, n) ==
    IF AtEnd(d, p) THEN [p |-> p, n |-> n]
    ELSE LET ln == LineAt(d, p)
         IN  IF ln.text = <<>> THEN SkipBlank(d, ln.next, n + 1)
             ELSE [p |-> p, n |-> n]

(* a text whose last character is an escape which is not itself escaped *)
RECURSIVE EscapeRun(_, _, _)
EscapeRun(S, s, i) == IF i >= 1 /\ s[i] \in S.e THEN 1 + EscapeRun(S, s, i - 1)
                      ELSE 0
OpenEscape(S, s) == S.e # {} /\ EscapeRun(S, s, Len(s)) % 2 = 1

(***************************************************************************)
(* A row is read line by line.  r is the row so far:                       *)
(*   a      the automaton after all text before the last piece             *)
(*   piece  text not yet fed into the automaton                            *)
(*   eol    ending of the last line taken                                  *)
(*   next   position of the first line not taken                           *)
(*   lines  number of lines taken                                          *)
(*   joins  number of line ends the row was continued over                 *)
(*   err    "" as long as nothing is wrong                                 *)
(***************************************************************************)
TakeLine(d, r) ==
    LET ln == LineAt(d, r.next)
    IN  [r EXCEPT !.piece = @ \o ln.text, !.eol = ln.eol, !.next = ln.next,
                  !.lines = @ + 1]

(* continue over a line end, which becomes part of the row *)
Continue(S, d, r, why) ==
    IF S.lim > 0 /\ r.joins >= S.lim THEN [r EXCEPT !.err = "limit"]
    ELSE IF AtEnd(d, r.next) THEN [r EXCEPT !.err = why]
    ELSE TakeLine(d, [r EXCEPT !.piece = @ \o r.eol, !.joins = @ + 1])

RECURSIVE JoinEscaped(_, _, _)
JoinEscaped(S, d, r) ==
    IF r.err = "" /\ OpenEscape(S, r.piece)
    THEN JoinEscaped(S, d, Continue(S, d, r, "escape"))
    ELSE r

RECURSIVE JoinQuoted(_, _, _, _)
JoinQuoted(S, D, d, r) ==
    IF r.err # "" THEN r
    ELSE LET a  == Feed(S, D, r.a, r.piece)
             r1 == [r EXCEPT !.a = a, !.piece = <<>>]
         IN  IF a.m = "quoted"
             THEN JoinQuoted(S, D, d,
                             JoinEscaped(S, d, Continue(S, d, r1, "quote")))
             ELSE r1

(* the row that starts at position p (which is not the end):
   err, f: as SplitRow; next, lines: what the row takes from the data;
   one: it is on one line *)
RowAt(S, D, d, p) ==
    LET r0 == TakeLine(d, [a |-> Start, piece |-> <<>>, eol |-> <<>>,
                           next |-> p, lines |-> 0, joins |-> 0, err |-> ""])
    IN  IF ~S.ml
        THEN LET s == SplitRow(S, D, r0.piece)
             IN  [err |-> s.err, f |-> s.f, at |-> s.at, next |-> r0.next,
                  lines |-> 1]
        ELSE LET r == IF D = <<>> THEN JoinEscaped(S, d, r0)
                      ELSE JoinQuoted(S, D, d, JoinEscaped(S, d, r0))
                 s == IF r.err # "" THEN [err |-> r.err, f |-> <<>>]
                      ELSE IF r0.piece = <<>> /\ r.lines = 1
                           THEN [err |-> "", f |-> <<>>]
                      ELSE IF D = <<>> THEN [err |-> "delimiter", f |-> <<>>]
                      ELSE Finish(r.a)
             IN  [err |-> s.err, f |-> s.f, at |-> r.a.at, next |-> r.next,
                  lines |-> r.lines]
=============================================================================
