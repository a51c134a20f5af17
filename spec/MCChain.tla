------------------------------ MODULE MCChain ------------------------------
(***************************************************************************)
(* Chains of alternatives, evaluated call by call (try_next, or_else, ..., *)
(* on_error) as ss::parser's composite does, against what a chain as a     *)
(* whole means (Chain).                                                    *)
(***************************************************************************)
EXTENDS Parser, MCSetups, TLC

CONSTANT Lengths

Str == [k |-> "str"]
Chr == [k |-> "char"]
Lists == {<<Str>>, <<Chr>>, <<Str, Str>>}
Alts == [T : Lists, cb : {"none", "void", "yes", "no"}, oe : {TRUE, FALSE}]
Docs == {<<>>, <<10>>, <<97, 10>>, <<97, 97>>, <<97, 44, 97, 10>>,
         <<34, 97>>, <<34, 97, 10, 97>>}

VARIABLES p0, alts,       \* the parser in front of the chain, the chain
          p,              \* the parser now
          done, ok,       \* alternatives evaluated so far, one succeeded
          ran, has, err,  \* which callbacks and handlers ran, and how often
          vals

vars == <<p0, alts, p, done, ok, ran, has, err, vals>>

Init == /\ \E d \in Docs, S \in {SetupQ, SetupMultiQ} :
              p0 = New(S, Comma, "b", <<110>>, d, "ok").p
        /\ alts \in UNION {[1..n -> Alts] : n \in Lengths}
        /\ p = p0 /\ done = 0 /\ ok = FALSE
        /\ ran = [i \in 1..Len(alts) |-> 0]
        /\ has = [i \in 1..Len(alts) |-> FALSE]
        /\ err = [i \in 1..Len(alts) |-> 0]
        /\ vals = [i \in 1..Len(alts) |-> <<>>]

(* one alternative: convert the row, run the callback, check *)
Evaluate ==
    /\ done < Len(alts)
    /\ LET i    == done + 1
           a    == alts[i]
           row  == RowAt(p0.S, p0.D, p0.d, p0.pos)
           \* the first alternative reads the row, the others find it split
           tr   == /\ ~ok
                   /\ i = 1 \/ (~p0.eof /\ row.err = "")
           g    == IF i = 1 THEN GetNext(p, a.T) ELSE [p |-> p, o |-> Obs]
           c    == IF p0.eof THEN Fail(a.T, Failure(p0, "eof"))
                   ELSE ConvertFor(p0, a.T, row, p0.line + row.lines)
           hit  == tr /\ c.ok
           good == hit /\ a.cb # "no"
       IN  /\ p' = IF ~tr THEN p
                    ELSE ErrorState(g.p, good, IF c.ok THEN Failure(p0, "check")
                                          ELSE c.fail)
           /\ ran' = [ran EXCEPT ![i] = IF hit /\ a.cb # "none" THEN @ + 1
                                        ELSE @]
           /\ has' = [has EXCEPT ![i] = good]
           /\ vals' = [vals EXCEPT ![i] = IF hit THEN c.v ELSE <<>>]
           /\ ok' = (ok \/ good)
           /\ err' = [err EXCEPT ![i] = IF a.oe /\ ~ok' THEN @ + 1 ELSE @]
           /\ done' = i
    /\ UNCHANGED <<p0, alts>>

Next == Evaluate
Spec == Init /\ [][Next]_vars

Finished == done = Len(alts)
Whole == Chain(p0, alts)

Refines ==
    Finished =>
        /\ p = Whole.p
        /\ Whole.o.st = IF ok THEN "ok" ELSE "fail"
        /\ \A i \in 1..Len(alts) :
              LET x == Whole.o.x[i]
              IN  x.has = has[i] /\ x.ran = (ran[i] = 1) /\ x.v = vals[i]
                  /\ x.err = (err[i] = 1)

FirstWins ==
    Finished =>
        LET w == {i \in 1..Len(alts) : has[i]}
        IN  /\ ok = (w # {}) /\ p.valid = ok
            /\ \A i, j \in w : i = j
            /\ \A i \in w : \A j \in 1..Len(alts) :
                  \* nothing behind the winner runs
                  j > i => ran[j] = 0 /\ err[j] = 0

OnceEach == /\ \A i \in 1..Len(alts) : ran[i] <= 1 /\ err[i] <= 1
            \* the chain takes one row
            /\ (Finished /\ ~p0.eof) => p.pos = GetNext(p0, <<Str>>).p.pos

Handlers ==
    Finished => \A i \in 1..Len(alts) :
        (err[i] = 1) = (alts[i].oe /\ \A j \in 1..i : ~has[j])
=============================================================================
