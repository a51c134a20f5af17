----------------------------- MODULE Converter -----------------------------
(***************************************************************************)
(* The converter object.  Its state is what the last split left behind     *)
(* (last, as SplitRow; err "none" if nothing was split), whether the last  *)
(* conversion was valid, and whether the last row had an open quote.       *)
(***************************************************************************)
EXTENDS Parser

NewConverter(S, em) ==
    [p |-> [k |-> "conv", S |-> S, em |-> em, live |-> TRUE, valid |-> TRUE,
            why |-> NoFail, uq |-> FALSE, last |-> [err |-> "", f |-> <<>>, at |-> 0]],
     o |-> Obs]

SplitLine(c, line, D) ==
    LET s == SplitRow(c.S, D, line)
    IN  [c EXCEPT !.last = s, !.uq = (s.err = "quote")]

(* conversion of what the last split left behind *)
ConvertLast(c, T) ==
    LET r == IF c.last.err # ""
             THEN Fail(T, [NoFail EXCEPT !.w = c.last.err, !.at = c.last.at])
             ELSE ConvertRow(T, <<>>, 0, c.last.f)
    IN  [p |-> ErrorState(c, r.ok, r.fail),
         o |-> [Obs EXCEPT !.st = IF r.ok THEN "ok" ELSE "fail", !.v = r.v,
                           !.fail = r.fail]]

ConvertLine(c, T, line, D) == ConvertLast(SplitLine(c, line, D), T)

(* split alone does not change the validity of the converter; the fields of
   a malformed row are not specified (st "any") *)
SplitOnly(c, line, D) ==
    LET q == SplitLine(c, line, D)
    IN  [p |-> q,
         o |-> [Obs EXCEPT !.st = IF q.last.err = "" THEN "ok" ELSE "any",
                           !.v  = q.last.f]]

(* conversion of fields given by the caller *)
ConvertFields(c, T, fields) ==
    LET q == [c EXCEPT !.last.f = fields]
        r == ConvertLast(q, T)
    IN  [r EXCEPT !.p.last = c.last]
=============================================================================
