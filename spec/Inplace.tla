------------------------------ MODULE Inplace ------------------------------
(***************************************************************************)
(* The algorithm of ss::splitter: fields are decoded inside of the buffer  *)
(* which holds the row.  The buffer is a sequence of bytes whose last one  *)
(* is the terminating NUL; indices are 1-based.  A state z has             *)
(*   mem      the buffer                                                   *)
(*   b, c, e  begin of the field, end of its decoded part, end of what was *)
(*            read (begin_, curr_, end_)                                   *)
(*   esc      number of characters left out so far (escaped_)              *)
(*   out      slices of the buffer, [lo, hi)                               *)
(*   err, uq, done   as in the implementation                              *)
(*   pc       "field", "normal" or "quoted"                                *)
(***************************************************************************)
EXTENDS MCSetups

At(z, i) == z.mem[i]           \* TLC reports an index outside of the buffer

RECURSIVE PassWhile(_, _, _)
PassWhile(m, set, i) == IF m[i] \in set THEN PassWhile(m, set, i + 1) ELSE i

(* std::strncmp, which does not look behind a NUL *)
RECURSIVE MatchAt(_, _, _, _)
MatchAt(D, m, i, k) == IF k > Len(D) THEN TRUE
                       ELSE IF m[i + k - 1] # D[k] THEN FALSE
                       ELSE MatchAt(D, m, i, k + 1)

(* match_delimiter: width, and whether it is a delimiter *)
MatchDelimiter(S, D, m, i) ==
    LET j == PassWhile(m, S.tr, i)
    IN  IF m[j] = NUL THEN [w |-> 0, ok |-> FALSE]
        ELSE IF ~MatchAt(D, m, j, 1) THEN [w |-> Max2(j - i, 1), ok |-> FALSE]
        ELSE [w |-> PassWhile(m, S.tl, j + Len(D)) - i, ok |-> TRUE]

(* shift_and_set_current: closes the gap the characters left out make *)
SetCurrent(z) ==
    IF z.esc = 0 THEN [z EXCEPT !.c = z.e]
    ELSE LET n == z.e - z.c - z.esc
         IN  [z EXCEPT
                !.mem = [i \in 1..Len(z.mem) |->
                            IF i >= z.c /\ i < z.c + n THEN z.mem[i + z.esc]
                            ELSE z.mem[i]],
                !.c = z.e - z.esc]

JumpEscape(z) == LET y == SetCurrent(z)
                 IN  [y EXCEPT !.esc = @ + 1, !.e = @ + 1]

Push(z) == LET y == SetCurrent(z) IN [y EXCEPT !.out = Append(@, <<y.b, y.c>>)]

PushNext(z, n) == LET y == Push(z)
                  IN  [y EXCEPT !.b = y.e + n, !.pc = "field"]

Done(z) == [z EXCEPT !.done = TRUE]

BeginField(S, z) ==
    IF z.mem[z.b] \in S.q
    THEN [z EXCEPT !.esc = 0, !.b = @ + 1, !.c = z.b + 1, !.e = z.b + 1,
                   !.pc = "quoted"]
    ELSE [z EXCEPT !.esc = 0, !.c = z.b, !.e = z.b, !.pc = "normal"]

Normal(S, D, z) ==
    LET k == MatchDelimiter(S, D, z.mem, z.e)
    IN  IF k.ok THEN PushNext(z, k.w)
        ELSE IF k.w = 0 THEN Done(Push(z))
        ELSE IF At(z, z.e) \in S.e
             THEN IF At(z, z.e + 1) = NUL
                  \* the loop goes on to the end of the row
                  THEN [Done(z) EXCEPT !.err = "escape"]
                  ELSE LET y == JumpEscape(z) IN [y EXCEPT !.e = @ + k.w]
        ELSE [z EXCEPT !.e = @ + k.w]

Quoted(S, D, z) ==
    LET ch == At(z, z.e)
    IN  IF ch \notin S.q
        THEN IF ch \in S.e
             THEN IF At(z, z.e + 1) = NUL
                  THEN [Done(z) EXCEPT !.err = "escape"]
                  ELSE LET y == JumpEscape(z) IN [y EXCEPT !.e = @ + 1]
             ELSE IF ch = NUL
             THEN LET y == SetCurrent(z)
                  IN  [Done(y) EXCEPT !.uq = TRUE,
                                      !.err = IF S.ml THEN "" ELSE "quote",
                                      !.out = Append(@, <<1, y.b>>)]
             ELSE [z EXCEPT !.e = @ + 1]
        ELSE LET k == MatchDelimiter(S, D, z.mem, z.e + 1)
             IN  IF k.ok THEN PushNext(z, k.w + 1)
                 ELSE IF At(z, z.e + 1) \in S.q
                 THEN LET y == JumpEscape(z) IN [y EXCEPT !.e = @ + 1]
                 ELSE IF k.w = 0 THEN Done(Push(z))
                 ELSE [Done(z) EXCEPT !.err = "mismatched", !.at = z.e - 1,
                                      !.out = Append(@, <<1, z.b>>)]

SplitStep(S, D, z) ==
    CASE z.pc = "field"  -> BeginField(S, z)
      [] z.pc = "normal" -> Normal(S, D, z)
      [] z.pc = "quoted" -> Quoted(S, D, z)

NewSplit(S, m) ==
    [mem |-> m, b |-> PassWhile(m, S.tl, 1), c |-> 1, e |-> 1, esc |-> 0,
     out |-> <<>>, err |-> "", uq |-> FALSE, at |-> 0, done |-> FALSE,
     pc |-> "field"]

RECURSIVE RunSplit(_, _, _)
RunSplit(S, D, z) == IF z.done THEN z ELSE RunSplit(S, D, SplitStep(S, D, z))

(* resplit: the row goes on in the buffer m *)
NewResplit(S, z, m) ==
    LET junk == z.out[Len(z.out)]
        e    == z.e - z.esc
    IN  [z EXCEPT !.mem = m, !.out = SubSeq(@, 1, Len(@) - 1),
                  !.b = (junk[2] - junk[1] - 1) + 2, !.e = e, !.c = e,
                  !.esc = 0, !.err = "", !.uq = FALSE, !.done = FALSE,
                  !.pc = "quoted"]

Slices(z) == [i \in 1..Len(z.out) |->
                SubSeq(z.mem, z.out[i][1], z.out[i][2] - 1)]
=============================================================================
