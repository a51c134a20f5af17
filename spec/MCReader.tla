------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* The algorithm of ss::parser<...>::reader: one line is read ahead into a *)
(* growing buffer; a row is split in that buffer when it is asked for, and *)
(* joined with further lines there.  On every document over an alphabet it *)
(* refines the meaning of a document (RowAt, MoveTo), for every            *)
(* interleaving of reads and ignored rows.                                 *)
(***************************************************************************)
EXTENDS Inplace, TLC

CONSTANTS Alphabet, MaxLen, MCSetup, Delim

VARIABLES d,       \* the document
          cur,     \* curr_char_, chars_read_, line_number_, crlf_, eof
          buf,     \* the buffer of the next line: mem (after the split: the
                   \* decoded row), size, cap
          row,     \* what the last read found
          at, line \* the cursor of the specification

vars == <<d, cur, buf, row, at, line>>

S == MCSetup
D == Delim

Initial == 2                          \* get_line_initial_buffer_size

(* get_line: text with its line end, as the bytes between two offsets *)
RECURSIVE Grow(_, _)
Grow(cap, need) == IF cap >= need THEN cap ELSE Grow(2 * cap, need)

GetLine(p) == LET nl == ByteFrom(d, LF, p + 1)
              IN  IF p >= Len(d) THEN [eof |-> TRUE, t |-> <<>>, p |-> p]
                  ELSE LET q == IF nl = 0 THEN Len(d) ELSE nl
                       IN  [eof |-> FALSE, t |-> SubSeq(d, p + 1, q), p |-> q]

RemoveEol(t) ==
    LET n == Len(t)
    IN  IF t[n] # LF THEN [t |-> t, crlf |-> FALSE]
        ELSE IF n >= 2 /\ t[n - 1] = CR
        THEN [t |-> SubSeq(t, 1, n - 2), crlf |-> TRUE]
        ELSE [t |-> SubSeq(t, 1, n - 1), crlf |-> FALSE]

(* read_next, [cur, buf] *)
RECURSIVE ReadNext(_, _)
ReadNext(c, b) ==
    LET g == GetLine(c.curr)
        c1 == [c EXCEPT !.read = c.curr, !.curr = g.p, !.line = @ + 1]
        r == RemoveEol(g.t)
    IN  IF g.eof THEN [c |-> [c1 EXCEPT !.eof = TRUE], b |-> b]
        ELSE LET c2 == [c1 EXCEPT !.crlf = r.crlf]
                 b2 == [mem |-> r.t, cap |-> Grow(Max2(b.cap, Initial),
                                                 Len(g.t) + 1)]
             IN  IF S.ie /\ r.t = <<>> THEN ReadNext(c2, b2)
                 ELSE [c |-> c2, b |-> b2]

(* append_next_line_to_buffer on a row in the making
   x: [c, b, n (joins), z, err]; bad: the error if there is no further line *)
UndoEol(c, b) ==
    IF c.crlf /\ b.cap >= Len(b.mem) + 2 THEN b.mem \o <<CR, LF>>
    ELSE IF b.cap > Len(b.mem) THEN b.mem \o <<LF>>
    ELSE b.mem

AppendLine(x, bad) ==
    IF S.lim > 0 /\ x.n >= S.lim THEN [x EXCEPT !.err = "limit"]
    ELSE LET m  == UndoEol(x.c, x.b)
             g  == GetLine(x.c.curr)
             r  == RemoveEol(g.t)
             x1 == [x EXCEPT !.n = @ + 1, !.c.read = x.c.curr]
         IN  IF g.eof THEN [x1 EXCEPT !.err = bad]
             ELSE [x1 EXCEPT !.c.curr = g.p, !.c.line = @ + 1,
                             !.c.crlf = r.crlf,
                             !.b = [mem |-> m \o r.t,
                                    cap |-> Len(m) + Len(r.t) + 3]]

RECURSIVE JoinEsc(_)
JoinEsc(x) == IF x.err = "" /\ EscapeRun(S, x.b.mem, Len(x.b.mem)) % 2 = 1
              THEN JoinEsc(AppendLine(x, "escape")) ELSE x

RECURSIVE JoinQuote(_)
JoinQuote(x) ==
    IF x.err # "" \/ ~x.z.uq THEN x
    ELSE LET size == Len(x.b.mem) - x.z.esc       \* size_shifted
             x1 == AppendLine([x EXCEPT !.b.mem = SubSeq(x.z.mem, 1, size)],
                              "quote")
             x2 == IF S.e # {} THEN JoinEsc(x1) ELSE x1
         IN  IF x2.err # "" THEN x2
             ELSE LET z == RunSplit(S, D, NewResplit(S, x2.z,
                                                     x2.b.mem \o <<NUL>>))
                  IN  JoinQuote([x2 EXCEPT !.z = z])

Parse(c, b) ==
    LET x0 == [c |-> c, b |-> b, n |-> 0, z |-> NewSplit(S, <<NUL>>),
               err |-> ""]
        x1 == IF S.ml /\ S.e # {} THEN JoinEsc(x0) ELSE x0
        z  == IF x1.b.mem = <<>> THEN [x1.z EXCEPT !.done = TRUE]
              ELSE RunSplit(S, D, NewSplit(S, x1.b.mem \o <<NUL>>))
        x2 == IF x1.err # "" THEN x1
              ELSE IF S.ml /\ S.q # {} THEN JoinQuote([x1 EXCEPT !.z = z])
              ELSE [x1 EXCEPT !.z = z]
    IN  x2

-----------------------------------------------------------------------------
NoBuf == [mem |-> <<>>, cap |-> 0]
NoRow == [err |-> "none", f |-> <<>>, want |-> "none", wantf |-> <<>>,
          read |-> 0]

(* the cursor of the specification, without mentioning the reader *)
Skip(p, n) == IF S.ie THEN SkipBlank(d, p, n) ELSE [p |-> p, n |-> n]

Init == /\ d \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ LET r == ReadNext([curr |-> 0, read |-> 0, line |-> 0,
                              crlf |-> FALSE, eof |-> FALSE], NoBuf)
           IN  cur = r.c /\ buf = r.b
        /\ row = NoRow
        /\ at = Skip(1, 0).p /\ line = Skip(1, 0).n

GetRow == /\ ~cur.eof
          /\ LET x == Parse(cur, buf)
                 r == ReadNext(x.c, x.b)   \* buffers swapped: capacities stay
                 w == RowAt(S, D, d, at)
                 e == IF x.err # "" THEN x.err ELSE x.z.err
                 k == Skip(w.next, line + w.lines)
             IN  /\ row' = [err |-> e,
                            f |-> IF e = "" THEN Slices(x.z) ELSE <<>>,
                            want |-> w.err, wantf |-> w.f, read |-> x.n]
                 /\ cur' = r.c /\ buf' = r.b
                 /\ at' = k.p /\ line' = k.n
          /\ UNCHANGED d

Ignore == /\ ~cur.eof
          /\ LET r == ReadNext(cur, buf)
                 k == Skip(LineAt(d, at).next, line + 1)
             IN  /\ cur' = r.c /\ buf' = r.b
                 /\ at' = k.p /\ line' = k.n
          /\ row' = NoRow /\ UNCHANGED d

Next == GetRow \/ Ignore
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what the algorithm finds is what the document means *)
Refines == row.err = row.want /\ row.f = row.wantf

CursorTrue == /\ cur.read = at - 1
              /\ cur.eof = AtEnd(d, at)
              /\ (IF cur.line > 0 THEN cur.line - 1 ELSE 0) = line

(* what is written stays inside of the buffer, with its NUL *)
Fits == ~cur.eof => Len(buf.mem) + 1 <= buf.cap

(* a row that is delivered has one line end for each line joined to it *)
LFs(t) == FoldLeft(LAMBDA n, c : IF c = LF THEN n + 1 ELSE n, 0, t)
Whole == row.err = "" =>
    row.read = FoldLeft(LAMBDA n, t : n + LFs(t), 0, row.f)

(* a row is the text between its start and its last line end, as it is, whose
   other line ends are inside of quotes or behind escapes *)
Text(p, q) == LET t == SubSeq(d, p, q - 1)
              IN  IF t = <<>> THEN t ELSE RemoveEol(t).t

Original ==
    ~AtEnd(d, at) =>
        LET w == RowAt(S, D, d, at)
        IN  w.err = "" => w.f = SplitRow(S, D, Text(at, w.next)).f

Limited == (S.lim > 0 /\ row.err = "") => row.read <= S.lim

Ends == <>cur.eof
=============================================================================
