------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions.  The file holds one scenario a line: *)
(* a sequence of calls on the real library, each with its arguments and    *)
(* with what the caller observed (field o).  Every scenario is a behaviour *)
(* of this specification; invariant Conform says that the observations are *)
(* the ones the system specification allows.                               *)
(***************************************************************************)
EXTENDS Steps, Report, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l       \* scenario, and number of its calls taken

tvars == <<t, l, inst, obs>>

(***************************************************************************)
(* What the caller sees of an observation o, in the error mode em          *)
(***************************************************************************)
ShownStatus(em, o, valid, g) ==
    IF em = "t"
    THEN /\ g.st = (IF o.st = "fail" THEN "exc" ELSE "ok")
         /\ g.valid = 1
         /\ o.st = "fail" => Reports(g.msg, o.fail)
    ELSE /\ g.st = "ok"
         /\ g.valid = (IF valid THEN 1 ELSE 0)
         /\ (em = "s" /\ o.st = "fail") => Reports(g.msg, o.fail)
         /\ (em = "s" /\ valid) => g.msg = <<>>

(* values are delivered unless the call throws *)
ShownValues(em, o, T, vals) ==
    IF em = "t" /\ o.st = "fail" THEN vals = <<>>
    ELSE ValuesMatch(T, o.v, vals)

ShownCursor(p, g) ==
    p.k = "parser" /\ p.live =>
        /\ g.eof = (IF p.eof THEN 1 ELSE 0)
        /\ g.line = p.line
        /\ g.pos = p.pos - 1

(* B: the types read in the body of the loop, or none *)
ShownRounds(em, T, B, rounds, got) ==
    /\ Len(got) = Len(rounds)
    /\ \A i \in 1..Len(rounds) :
          /\ ShownStatus(em, rounds[i], rounds[i].st = "ok", got[i])
          /\ ShownValues(em, rounds[i],
                         IF B # <<>> /\ i % 2 = 0 THEN B ELSE T, got[i].vals)

ShownChain(alts, x, got) ==
    /\ Len(got) = Len(x)
    /\ \A i \in 1..Len(x) :
          /\ got[i].has = (IF x[i].has THEN 1 ELSE 0)
          /\ got[i].ran = (IF x[i].ran THEN 1 ELSE 0)
          /\ got[i].err = (IF x[i].err THEN 1 ELSE 0)
          /\ x[i].has => ValuesMatch(alts[i].T, x[i].v, got[i].vals)
          /\ (x[i].ran /\ got[i].hasarg = 1)
                => ValuesMatch(alts[i].T, x[i].v, got[i].arg)

Shown(c, p, o) ==
    LET g  == c.o
        em == IF p.k = "dead" THEN "b" ELSE p.em
    IN  IF c.op = "drain"
        THEN g.st = "ok" /\ g.x[1] = 1
             /\ IF p.S.ml THEN g.x[2] <= o.x[1] ELSE g.x[2] = o.x[1]
             /\ g.eof = 1 /\ g.pos <= Len(p.d)
        ELSE IF c.op = "end" THEN g.st = "ok" /\ g.x = <<0, 0>>
        ELSE
        /\ g.st \in {"ok", "exc"}
        /\ o.st # "any" =>
             /\ p.k # "dead" =>
                   ShownStatus(em, o,
                               IF c.op = "new" THEN o.st = "ok" ELSE p.valid, g)
             \* the report stays until something succeeds
             /\ (p.k # "dead" /\ em = "s" /\ ~p.valid) => Reports(g.msg, p.why)
             /\ CASE c.op \in {"get", "conv", "convlast", "convfields"} ->
                       ShownValues(em, o, TypeLists[c.tl], g.vals)
                  [] c.op = "loop" -> ShownRounds(em, TypeLists[c.tl], <<>>, o.x, g.x)
                  [] c.op = "loopwith" ->
                       ShownRounds(em, TypeLists[c.tl], BodyOf(c), o.x, g.x)
                  [] c.op = "chain" -> ShownChain(AltsOf(c), o.x, g.x)
                  [] c.op \in {"hdr", "raw", "split"} ->
                       (em = "t" /\ o.st = "fail") \/ g.vals = o.v
                  [] c.op \in {"fexists", "ignore"} ->
                       (em = "t" /\ o.st = "fail") \/ g.x = o.x
                  [] OTHER -> TRUE
        \* what was written is read
        /\ "want" \in DOMAIN c => g.vals = c.want /\ o.st = "ok"
        /\ ShownCursor(p, g)
        /\ p.k = "conv" => (g.uq = 1) = p.uq

-----------------------------------------------------------------------------
(* the calls *)

Call == Log[t].ops[l + 1]

TraceInit == SysInit /\ l = 0 /\ t \in 1..Len(Log)

TraceNext == l < Len(Log[t].ops) /\ Called(Call) /\ l' = l + 1 /\ t' = t

TraceSpec == TraceInit /\ [][TraceNext]_tvars

-----------------------------------------------------------------------------
(* the last call taken was observed as specified *)
Conform == l > 0 => Shown(Log[t].ops[l], inst[obs.i], obs.o)

(* what is printed of a behaviour which is rejected; documents which fill  *)
(* pages are left out                                                      *)
Sized == \A k \in 1..Len(Log[t].ops) :
            LET c == Log[t].ops[k]
            IN  /\ "data" \in DOMAIN c => Len(c.data) < 2000
                /\ "line" \in DOMAIN c => Len(c.line) < 2000
Printed == [ t |-> t, l |-> l,
             spec |-> IF Sized THEN <<inst, obs>> ELSE <<"large", 0>> ]

(* every scenario is taken to its end (states l = 0..Len(ops) all exist):
   checked by counting, see the runner *)
Calls == FoldLeft(LAMBDA n, s : n + Len(s.ops) + 1, 0, Log)
Complete == TLCGet("stats").distinct = Calls
=============================================================================
