------------------------------ MODULE MCModes ------------------------------
(***************************************************************************)
(* Three parsers of the same document which differ in the error mode only, *)
(* under the same sequences of calls.                                      *)
(***************************************************************************)
EXTENDS MCParser

Modes == <<"b", "s", "t">>

InitM == /\ \E d \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} :
              inst = [i \in 1..3 |->
                        New(MCSetup, Comma, Modes[i], <<110>>, d, "ok").p]
         /\ obs = [i \in 1..3 |-> Obs] /\ op = "new"

All(F(_)) == /\ inst' = [i \in 1..3 |-> F(inst[i]).p]
             /\ obs' = [i \in 1..3 |-> F(inst[i]).o]

NextM == \/ /\ \E T \in Lists : All(LAMBDA p : GetNext(p, T))
            /\ op' = "get"
         \/ All(LAMBDA p : Chain(p, ChainOf)) /\ op' = "chain"
         \/ All(IgnoreNext) /\ op' = "ignore"
         \/ All(Header) /\ op' = "hdr"
         \/ /\ \E f \in Names1 : All(LAMBDA p : FieldExists(p, f))
            /\ op' = "fexists"
         \/ /\ \E fs \in FieldLists : All(LAMBDA p : UseFields(p, fs))
            /\ op' = "use"

SpecM == InitM /\ [][NextM]_vars

Agree == \A i \in 2..3 : /\ inst[i] = [inst[1] EXCEPT !.em = Modes[i]]
                         /\ obs[i] = obs[1]

(* a loop stops at a failure only where failures are thrown; going on with a
   new loop then gives what the other modes give in one *)
RECURSIVE Resumed(_, _, _)
Resumed(p, T, k) ==
    LET r == Loop(p, T, k, <<>>)
    IN  IF r.o.st = "fail"
        THEN r.o.x \o <<[r.o EXCEPT !.x = <<>>]>>
             \o Resumed(r.p, T, k - Len(r.o.x) - 1)
        ELSE r.o.x
LoopsAgree ==
    \A T \in Lists : Resumed(inst[3], T, 4) = Loop(inst[1], T, 4, <<>>).o.x
=============================================================================
