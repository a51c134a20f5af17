------------------------------- MODULE MCTour -------------------------------
(***************************************************************************)
(* Sequences of calls for the library, generated from the specification.   *)
(* The file MENU holds on each line a start (the objects which exist) and  *)
(* the calls there are; what is printed names them by number.              *)
(*                                                                         *)
(* Explored exhaustively (SpecTour), every call is printed once in every   *)
(* state of the objects that can be reached within MaxCalls calls, at the  *)
(* end of a shortest sequence that leads there.  Simulated (SpecWalk),     *)
(* behaviours of MaxCalls calls are printed.                               *)
(***************************************************************************)
EXTENDS Steps, TLC, Json, IOUtils

CONSTANT MaxCalls

Menu == ndJsonDeserialize(IOEnv.MENU)

VARIABLES start, hist

vars == <<inst, obs, start, hist>>

Init == /\ start \in 1..Len(Menu)
        /\ hist = <<>>
        /\ inst = [i \in 1..Len(Menu[start].new) |-> Made(Menu[start].new[i]).p]
        /\ obs = [i |-> 1, o |-> Obs]

Tell(h) == PrintT("TOUR " \o ToJson([start |-> start, calls |-> h]))

Next == /\ Len(hist) < MaxCalls
        /\ \E k \in 1..Len(Menu[start].calls) :
              /\ Called(Menu[start].calls[k])
              /\ hist' = Append(hist, k)
        /\ UNCHANGED start

NextTold == Next /\ Tell(hist')

SpecTour == Init /\ [][NextTold]_vars

(* a walk is printed when it is over *)
Over     == /\ Len(hist) = MaxCalls /\ Tell(hist)
            /\ hist' = Append(hist, 0)
            /\ UNCHANGED <<inst, obs, start>>
SpecWalk == Init /\ [][Next \/ Over]_vars

(* what follows depends on the objects only *)
View == <<start, inst>>
(* ... in the specification; the second way to look at it keeps apart how
   a state was reached *)
ViewLast == <<start, inst, IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>>
=============================================================================
