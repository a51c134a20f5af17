------------------------------- MODULE Encode -------------------------------
(***************************************************************************)
(* Writing data that are to be read back: a writer which puts rows of      *)
(* fields into a document character by character.  Each field is quoted    *)
(* (quotes inside of it doubled or escaped), or written with escapes in    *)
(* front of all special characters, or plainly if it has none; spacing     *)
(* that is trimmed may be put around fields; line ends inside of fields    *)
(* are written if multiline is enabled.                                    *)
(***************************************************************************)
EXTENDS Rows

(* w: the writer
   rows  rows finished        row   fields finished of the row
   cur   the field so far     m     "field" nothing written of it yet,
                                    "quoted", "plain", "done"
   text  the document so far  joins line ends written inside of the row
   held  the last character was written as it is and would be trimmed
   ecr   the last character is an escaped CR                               *)
Writer == [rows |-> <<>>, row |-> <<>>, cur |-> <<>>, m |-> "field",
           text |-> <<>>, joins |-> 0, held |-> FALSE, ecr |-> FALSE,
           from |-> 0]

Emit(w, t) == [w EXCEPT !.text = @ \o t]

(* special in a field that is not quoted: where it stands as the next one *)
MustEscape(S, D, w, c) ==
    \/ c \in S.e
    \/ \E i \in 1..Len(D) : D[i] = c
    \/ w.cur = <<>> /\ c \in S.q \cup S.tl

MayEnd(S, w) == S.lim = 0 \/ w.joins < S.lim

Count(w, c) == [w EXCEPT !.joins = IF c = LF THEN @ + 1 ELSE @]

(* the actions, as sets of writers *)
OpenQuoted(S, w) ==
    IF w.m # "field" THEN {}
    ELSE {[Emit(w, pad \o <<q>>) EXCEPT !.m = "quoted"] :
             q \in S.q, pad \in {<<>>} \cup {<<c>> : c \in S.tl}
                               \cup {<<c, c>> : c \in S.tl}}

OpenPlain(S, w) ==
    IF w.m # "field" THEN {}
    ELSE {[Emit(w, pad) EXCEPT !.m = "plain", !.held = FALSE, !.ecr = FALSE] :
             pad \in {<<>>} \cup {<<c>> : c \in S.tl}}

(* c as the next character of the field *)
Put(S, D, w, c) ==
    LET w1   == [Count(w, c) EXCEPT !.cur = Append(@, c), !.held = FALSE,
                                    !.ecr = FALSE]
        fits == c = LF => S.ml /\ MayEnd(S, w)
        escd == {[Emit(w1, <<e, c>>) EXCEPT !.ecr = (c = CR)] : e \in S.e}
    IN  IF ~fits \/ c = NUL THEN {}
        ELSE CASE w.m = "quoted" ->
                    (IF c \in S.q THEN {Emit(w1, <<c, c>>)}
                     ELSE IF c \in S.e THEN {}
                     ELSE {Emit(w1, <<c>>)}) \cup escd
               [] w.m = "plain" ->
                    (IF MustEscape(S, D, w, c) \/ (c = LF /\ ~w.ecr) THEN {}
                     ELSE {[Emit(w1, <<c>>) EXCEPT !.held = (c \in S.tr)]})
                    \cup (IF c = LF /\ w.ecr THEN {} ELSE escd)
               [] OTHER -> {}

Close(S, w) ==
    LET w1 == [w EXCEPT !.row = Append(@, w.cur), !.cur = <<>>, !.m = "done"]
        \* the first character of the spacing behind must not look escaped
        pads == {<<>>} \cup {<<c>> : c \in S.tr} \cup {<<c, c>> : c \in S.tr}
    IN  CASE w.m = "quoted" -> {Emit(w1, <<q>> \o pad) : q \in S.q, pad \in pads}
          [] w.m = "plain" /\ ~w.held -> {Emit(w1, pad) : pad \in pads}
          [] OTHER -> {}

NextField(D, w) ==
    IF w.m # "done" THEN {} ELSE {[Emit(w, D) EXCEPT !.m = "field"]}

(* a row with one field of which nothing is written has no fields *)
Readable(w) == w.m = "done" /\ Len(w.text) > w.from

EndRow(w) ==
    IF ~Readable(w) THEN {}
    ELSE {[Emit(w, eol) EXCEPT !.rows = Append(@, w.row), !.row = <<>>,
                               !.m = "field", !.joins = 0,
                               !.from = Len(w.text) + Len(eol)] :
             \* CR LF would be taken as one line end
             eol \in (IF w.text[Len(w.text)] = CR THEN {} ELSE {<<LF>>})
                     \cup {<<CR, LF>>}}

Steps(S, D, w, Alphabet) ==
    OpenQuoted(S, w) \cup OpenPlain(S, w) \cup Close(S, w)
    \cup NextField(D, w) \cup EndRow(w)
    \cup UNION {Put(S, D, w, c) : c \in Alphabet}

(* what was written, if the data end here *)
Written(w) == IF w.m = "done" THEN Append(w.rows, w.row) ELSE w.rows
(* (a row whose last character is an escaped line end needs one of its own) *)
Complete(w) == \/ Readable(w) /\ w.text[Len(w.text)] # LF
               \/ w.m = "field" /\ w.row = <<>>

(* all rows of a document: [ok, rows] *)
RECURSIVE ReadAll(_, _, _, _)
ReadAll(S, D, d, p) ==
    IF AtEnd(d, p) THEN [ok |-> TRUE, rows |-> <<>>]
    ELSE LET r == RowAt(S, D, d, p)
             rest == ReadAll(S, D, d, r.next)
         IN  [ok |-> r.err = "" /\ rest.ok, rows |-> <<r.f>> \o rest.rows]
=============================================================================
