------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* Several parsers and converters of one program.  Each action is one      *)
(* public call on one object; obs is what the last call delivered.         *)
(***************************************************************************)
EXTENDS Converter

VARIABLES inst,    \* the objects, a sequence
          obs      \* [i: object, T: types asked for, o: observation]

sysvars == <<inst, obs>>

Dead == [k |-> "dead", live |-> FALSE]

SysInit == inst = <<>> /\ obs = [i |-> 0, o |-> Obs]

Live(i, k) == i \in 1..Len(inst) /\ inst[i].live /\ inst[i].k = k

(* the call on object i has result r = [p, o] *)
Result(i, r) == /\ inst' = [inst EXCEPT ![i] = r.p]
                /\ obs' = [i |-> i, o |-> r.o]

Create(r) == /\ inst' = Append(inst, r.p)
             /\ obs' = [i |-> Len(inst) + 1, o |-> r.o]

DoNew(S, D, em, name, data, src) == Create(New(S, D, em, name, data, src))
DoNewConverter(S, em)  == Create(NewConverter(S, em))

DoGet(i, T)          == Live(i, "parser") /\ Result(i, GetNext(inst[i], T))
DoLoop(i, T, n)      == Live(i, "parser") /\ Result(i, Loop(inst[i], T, n, <<>>))
DoLoopWith(i, T, n, B) == Live(i, "parser")
                          /\ Result(i, LoopWith(inst[i], T, n, B, <<>>))
DoChain(i, alts)     == Live(i, "parser") /\ Result(i, Chain(inst[i], alts))
DoIgnore(i)          == Live(i, "parser") /\ Result(i, IgnoreNext(inst[i]))
DoRawHeader(i)       == Live(i, "parser") /\ Result(i, RawHeader(inst[i]))
DoHeader(i)          == Live(i, "parser") /\ Result(i, Header(inst[i]))
DoFieldExists(i, f)  == Live(i, "parser") /\ Result(i, FieldExists(inst[i], f))
DoUseFields(i, fs)   == Live(i, "parser") /\ Result(i, UseFields(inst[i], fs))
DoQuery(i)           == Live(i, "parser") /\ Result(i, [p |-> inst[i], o |-> Obs])

(* reading to the end: how many reads it takes, or at most takes if a row may
   have several lines.  What the rows are is left open, and the parser is not
   used any more. *)
DoDrain(i) ==
    /\ Live(i, "parser")
    /\ LET p == inst[i]
       IN  Result(i, [p |-> [p EXCEPT !.live = FALSE],
                      o |-> [Obs EXCEPT !.st = "any",
                                        !.x = <<LinesLeft(p)>>]])

(* a read of a row whose meaning is left open: ok says whether it succeeded.
   It takes exactly one line where rows are lines. *)
DoTake(i, ok) ==
    /\ Live(i, "parser") /\ ~inst[i].S.ml
    /\ LET p == inst[i]
           good == ok /\ ~p.eof
       IN  Result(i, [p |-> ErrorState(SkipLine(p), good, NoFail),
                      o |-> [Obs EXCEPT !.st = IF good THEN "ok" ELSE "fail"]])

(* a new parser takes over the state of parser i *)
DoMove(i)            == Live(i, "parser") /\ Result(i, [p |-> inst[i], o |-> Obs])

(* parser i takes over the state of parser j, its own state is lost *)
DoMoveAssign(i, j) ==
    /\ Live(j, "parser") /\ i \in 1..Len(inst) /\ i # j
    /\ inst[i].k = "parser"
    /\ inst' = [inst EXCEPT ![i] = inst[j], ![j] = Dead]
    /\ obs' = [i |-> i, o |-> Obs]

(* two parsers change places: three moves, one of them into a parser that
   was moved from *)
DoSwap(i, j) ==
    /\ Live(i, "parser") /\ Live(j, "parser") /\ i # j
    /\ inst' = [inst EXCEPT ![i] = inst[j], ![j] = inst[i]]
    /\ obs' = [i |-> i, o |-> Obs]

DoDelete(i) == /\ i \in 1..Len(inst)
               /\ inst' = [inst EXCEPT ![i] = Dead]
               /\ obs' = [i |-> i, o |-> Obs]

(* the end of the program: no object holds on to anything afterwards *)
DoQueryAll == /\ inst # <<>>
              /\ inst' = [i \in 1..Len(inst) |-> Dead]
              /\ obs' = [i |-> 1, o |-> Obs]

DoConvert(i, T, line, D) ==
    Live(i, "conv") /\ Result(i, ConvertLine(inst[i], T, line, D))
DoSplit(i, line, D) ==
    Live(i, "conv") /\ Result(i, SplitOnly(inst[i], line, D))
DoConvertLast(i, T) ==
    /\ Live(i, "conv")
    /\ LET r == ConvertLast(inst[i], T)
       IN  \* where a split throws, what it leaves behind is not specified
           Result(i, IF inst[i].em = "t" /\ inst[i].last.err # ""
                     THEN [r EXCEPT !.o.st = "any"] ELSE r)
DoConvertFields(i, T, fields) ==
    /\ Live(i, "conv")
    /\ LET r == ConvertFields(inst[i], T, fields)
       IN  Result(i, IF inst[i].em = "t" /\ inst[i].last.err # ""
                     THEN [r EXCEPT !.o.st = "any"] ELSE r)
=============================================================================
