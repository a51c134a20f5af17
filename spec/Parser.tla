------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser object: its abstract state and the effect of each public     *)
(* call, as operators from a state (and arguments) to                      *)
(*   [p |-> the state after the call, o |-> what the caller observes].     *)
(*                                                                         *)
(* An observation is a record                                              *)
(*   st    "ok" or "fail" (the call reports an error)                      *)
(*   fail  cause of a failure and what its report has to name              *)
(*   v     values delivered                                                *)
(*   x     anything else the call delivers                                 *)
(* The error modes do not differ in st; they differ in how a failure is    *)
(* shown to the caller, see Shown.                                         *)
(***************************************************************************)
EXTENDS Rows, Convert

(* the error state: what failed last, or that nothing did.  Calls which
   neither succeed nor fail leave it as it is. *)
InError(p, fail) == [p EXCEPT !.valid = FALSE, !.why = fail]
Cleared(p)       == [p EXCEPT !.valid = TRUE, !.why = NoFail]
ErrorState(p, ok, fail) == IF ok THEN Cleared(p) ELSE InError(p, fail)

Obs == [st |-> "ok", fail |-> NoFail, v |-> <<>>, x |-> <<>>]

Failure(p, w) == [NoFail EXCEPT !.w = w, !.name = p.name]

(* "CSV data buffer" *)
BufferName == <<67, 83, 86, 32, 100, 97, 116, 97, 32,
                98, 117, 102, 102, 101, 114>>

-----------------------------------------------------------------------------
(* The cursor: pos is the 1-based index of the next unread row, line the   *)
(* number of lines before it.                                              *)
(***************************************************************************)
MoveTo(p, pos, line) ==
    LET c == IF p.S.ie THEN SkipBlank(p.d, pos, line)
             ELSE [p |-> pos, n |-> line]
    IN  [p EXCEPT !.pos = c.p, !.line = c.n, !.eof = AtEnd(p.d, c.p)]

SkipLine(p) ==
    IF p.eof THEN p ELSE MoveTo(p, LineAt(p.d, p.pos).next, p.line + 1)

(* lines to come, without blank ones that are ignored *)
RECURSIVE LinesLeft(_)
LinesLeft(p) == IF p.eof THEN 0 ELSE 1 + LinesLeft(SkipLine(p))

(* src is "ok", "null" (no buffer) or "missing" (no file) *)
New(S, D, em, name, data, src) ==
    LET p0 == [k |-> "parser", S |-> S, D |-> D, em |-> em, name |-> name,
               d |-> data, pos |-> 1, line |-> 0, eof |-> TRUE, map |-> <<>>,
               ncols |-> 0, hdr |-> <<>>, hrow |-> <<>>, hline |-> 0,
               valid |-> TRUE, why |-> NoFail, live |-> TRUE]
        p1 == MoveTo(p0, 1, 0)
        p2 == IF S.ih THEN SkipLine(p1)
              ELSE [p1 EXCEPT !.hline = p1.line,
                              !.hrow = IF p1.eof THEN <<>>
                                       ELSE LineAt(data, p1.pos).text]
    IN  IF src = "ok" THEN [p |-> p2, o |-> Obs]
        ELSE [p |-> [InError(p0, Failure(p0, src)) EXCEPT !.live = (em # "t")],
              o |-> [Obs EXCEPT !.st = "fail", !.fail = Failure(p0, src)]]

-----------------------------------------------------------------------------
(* reading rows *)

(* outcome of converting the row (as RowAt) to T, line: number of its last
   line *)
ConvertFor(p, T, row, line) ==
    LET c == IF row.err # ""
             THEN Fail(T, [NoFail EXCEPT !.w = row.err,
                                         !.at = IF row.lines = 1 THEN row.at
                                                ELSE -1])
             ELSE ConvertRow(T, p.map, p.ncols, row.f)
    IN  [ok |-> c.ok, v |-> c.v,
         fail |-> IF c.ok THEN NoFail
                  ELSE [c.fail EXCEPT !.name = p.name, !.line = line]]

GetNext(p, T) ==
    IF p.eof
    THEN [p |-> InError(p, Failure(p, "eof")),
          o |-> [Obs EXCEPT !.st = "fail", !.v = Defaults(T),
                            !.fail = Failure(p, "eof")]]
    ELSE LET row == RowAt(p.S, p.D, p.d, p.pos)
             c   == ConvertFor(p, T, row, p.line + row.lines)
             q   == MoveTo(p, row.next, p.line + row.lines)
         IN  [p |-> ErrorState(q, c.ok, c.fail),
              o |-> [Obs EXCEPT !.st = IF c.ok THEN "ok" ELSE "fail",
                                !.v = c.v, !.fail = c.fail]]

IgnoreNext(p) ==
    LET q == SkipLine(p)
    IN  [p |-> q, o |-> [Obs EXCEPT !.x = <<IF q.eof THEN 0 ELSE 1>>]]

(* a loop of at most n rounds; x lists the outcome of each round.  Where
   failures are thrown the first one ends the loop. *)
RECURSIVE Loop(_, _, _, _)
Loop(p, T, n, rounds) ==
    IF n = 0 \/ p.eof
    THEN [p |-> p, o |-> [Obs EXCEPT !.x = rounds]]
    ELSE LET g == GetNext(p, T)
         IN  IF p.em = "t" /\ g.o.st = "fail"
             THEN [p |-> g.p, o |-> [g.o EXCEPT !.x = rounds]]
             ELSE Loop(g.p, T, n - 1, Append(rounds, g.o))

(* a loop whose body calls the parser as well, in every round but the one in
   which it is left: B is <<>> to ignore a row, or the types of a read *)
RECURSIVE LoopWith(_, _, _, _, _)
LoopWith(p, T, n, B, rounds) ==
    IF n = 0 \/ p.eof
    THEN [p |-> p, o |-> [Obs EXCEPT !.x = rounds]]
    ELSE LET g == GetNext(p, T)
             failed(r, x) == [p |-> r.p, o |-> [r.o EXCEPT !.x = x]]
             so == Append(rounds, g.o)
             b == IF B = <<>> THEN IgnoreNext(g.p) ELSE GetNext(g.p, B)
         IN  IF p.em = "t" /\ g.o.st = "fail" THEN failed(g, rounds)
             ELSE IF n = 1 THEN [p |-> g.p, o |-> [Obs EXCEPT !.x = so]]
             ELSE IF p.em = "t" /\ b.o.st = "fail" THEN failed(b, so)
             ELSE LoopWith(b.p, T, n - 1, B,
                           IF B = <<>> THEN so ELSE Append(so, b.o))

(***************************************************************************)
(* A chain of alternatives: each has types T, a callback cb ("none",       *)
(* "void", "yes", "no": what it returns) and an on_error handler oe behind *)
(* it (TRUE or FALSE).  x holds, for each alternative, whether it carries  *)
(* a value (has), the value (v), whether the callback ran (ran) and        *)
(* whether the on_error handler ran (err).                                 *)
(***************************************************************************)
Chain(p, alts) ==
    LET row  == RowAt(p.S, p.D, p.d, p.pos)
        line == p.line + row.lines
        q    == IF p.eof THEN p ELSE MoveTo(p, row.next, line)
        Alt(acc, i) ==
            LET a    == alts[i]
                \* a row that is not there or cannot be split is not retried
                try  == ~acc.ok /\ (i = 1 \/ (~p.eof /\ row.err = ""))
                c    == IF p.eof
                        THEN [ok |-> FALSE, v |-> <<>>,
                              fail |-> Failure(p, "eof")]
                        ELSE ConvertFor(p, a.T, row, line)
                ran  == try /\ c.ok /\ a.cb # "none"
                good == try /\ c.ok /\ a.cb # "no"
                ok   == acc.ok \/ good
                fail == IF ok THEN NoFail
                        ELSE IF ~try THEN acc.fail
                        ELSE IF c.ok THEN Failure(p, "check")
                        ELSE c.fail
            IN  [ok |-> ok, fail |-> fail,
                 x  |-> Append(acc.x, [has |-> good,
                                       v   |-> IF try /\ c.ok THEN c.v ELSE <<>>,
                                       ran |-> ran,
                                       err |-> a.oe /\ ~ok])]
        res == FoldLeftDomain(Alt, [ok |-> FALSE, fail |-> NoFail, x |-> <<>>],
                              alts)
    IN  [p |-> ErrorState(q, res.ok, res.fail),
         o |-> [Obs EXCEPT !.st = IF res.ok THEN "ok" ELSE "fail",
                           !.fail = res.fail, !.x = res.x]]

-----------------------------------------------------------------------------
(* the header *)

HeaderFields(p) ==
    IF p.D = <<>> THEN [err |-> "delimiter", f |-> <<>>, at |-> 0]
    ELSE IF p.hrow = <<>> THEN [err |-> "", f |-> <<<<>>>>, at |-> 0]
    ELSE SplitRow([p.S EXCEPT !.ml = FALSE], p.D, p.hrow)

HeaderFail(p, w, text) ==
    LET f == [Failure(p, w) EXCEPT !.text = text]
    IN  [p |-> InError(p, f), o |-> [Obs EXCEPT !.st = "fail", !.fail = f]]

RawHeader(p) == [p |-> p, o |-> [Obs EXCEPT !.v = <<p.hrow>>]]

Header(p) ==
    LET h == HeaderFields(p)
    IN  IF h.err # "" THEN HeaderFail(p, "header", <<>>)
        ELSE [p |-> Cleared(p), o |-> [Obs EXCEPT !.v = h.f]]

(* the first field which occurs before, 0 if there is none *)
FirstRepeated(fs) ==
    SelectInSeq([i \in 1..Len(fs) |-> i],
                LAMBDA i : \E j \in 1..(i - 1) : fs[j] = fs[i])

(* the header is looked up once: what is wrong with it, or its names *)
Names(p) ==
    IF p.hdr # <<>> THEN [w |-> "", text |-> <<>>, f |-> p.hdr]
    ELSE LET h == HeaderFields(p)
             r == FirstRepeated(h.f)
         IN  IF h.err # "" THEN [w |-> "header", text |-> <<>>, f |-> <<>>]
             ELSE IF r # 0
                  THEN [w |-> "duplicate", text |-> h.f[r], f |-> <<>>]
             ELSE [w |-> "", text |-> <<>>, f |-> h.f]

IndexOf(fs, f) == SelectInSeq(fs, LAMBDA g : g = f)

FieldExists(p, f) ==
    LET n == Names(p)
    IN  IF n.w # "" THEN LET r == HeaderFail(p, n.w, n.text)
                         IN  [r EXCEPT !.o.x = <<0>>]
        ELSE [p |-> [Cleared(p) EXCEPT !.hdr = n.f],
              o |-> [Obs EXCEPT !.x = <<IF IndexOf(n.f, f) # 0 THEN 1 ELSE 0>>]]

UseFields(p, fs) ==
    \* at the end of the data a header that was not looked at before is not
    \* looked at any more
    LET n   == IF p.eof /\ p.hdr = <<>>
               THEN [w |-> "", text |-> <<>>, f |-> <<>>]
               ELSE Names(p)
        q   == [p EXCEPT !.hdr = n.f]
        bad == SelectInSeq(fs, LAMBDA f :
                  \/ \E i, j \in 1..Len(fs) : i # j /\ fs[i] = f /\ fs[j] = f
                  \/ IndexOf(n.f, f) = 0)
        m   == [Cleared(q) EXCEPT !.ncols = Len(n.f),
                                 !.map = [i \in 1..Len(fs) |-> IndexOf(n.f, fs[i])]]
    IN  IF n.w # "" THEN HeaderFail(p, n.w, n.text)
        ELSE IF fs = <<>> THEN HeaderFail(q, "nofields", <<>>)
        ELSE IF bad # 0
        THEN HeaderFail(q, IF \E j \in 1..Len(fs) : j # bad /\ fs[j] = fs[bad]
                           THEN "repeated" ELSE "unknown", fs[bad])
        ELSE [p |-> IF q.line = q.hline THEN SkipLine(m) ELSE m, o |-> Obs]
=============================================================================
