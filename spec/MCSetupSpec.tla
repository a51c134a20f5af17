---------------------------- MODULE MCSetupSpec ----------------------------
(***************************************************************************)
(* All lists of options up to a length, made by appending one option after *)
(* the other.  They are printed for the check of the implementation.       *)
(***************************************************************************)
EXTENDS SetupSpec, TLC, Json

CONSTANTS MaxOptions, Names

VARIABLE names

Init == names = <<>>
Next == /\ Len(names) < MaxOptions
        /\ \E o \in Names : names' = Append(names, o)
Spec == Init /\ [][Next]_names

(* behaviours along consistent lists, for long ones *)
NextConsistent ==
    /\ Len(names) < MaxOptions
    /\ \E o \in Names : names' = Append(names, o)
    /\ LET L == Listed(names')
       IN  Consistent(L) \/ Consistent(L \o <<Options.quote>>)
           \/ Consistent(L \o <<Options.escape>>)
SpecConsistent == Init /\ [][NextConsistent]_names

Here == Listed(names)

Swapped(i) == [Here EXCEPT ![i] = Here[i + 1], ![i + 1] = Here[i]]

(* the order of the options does not matter (neighbours can be swapped) *)
OrderFree ==
    \A i \in 1..(Len(names) - 1) :
        /\ Consistent(Swapped(i)) = Consistent(Here)
        /\ Consistent(Here) => /\ Meaning(Swapped(i)) = Meaning(Here)
                               /\ ErrorMode(Swapped(i)) = ErrorMode(Here)

(* nothing but a quote or an escape for multiline repairs a list *)
Repairs ==
    \A o \in Names :
        (~Consistent(Here) /\ Consistent(Append(Here, Options[o]))) =>
            /\ Has1(Here, "multi") /\ Options[o].k \in {"quote", "escape"}
            /\ ~Has1(Here, "quote") /\ ~Has1(Here, "escape")

(* a consistent list means something well defined *)
Distinct ==
    Consistent(Here) =>
        LET m == Meaning(Here)
        IN  /\ m.q \cap m.e = {} /\ (m.q \cup m.e) \cap (m.tl \cup m.tr) = {}
            /\ m.lim > 0 => m.ml
            /\ m.ml => m.q \cup m.e # {}
            /\ Len(names) <= 9

Show == PrintT("LIST " \o ToJson([names |-> names,
                                  ok |-> Consistent(Here),
                                  em |-> ErrorMode(Here)]))
=============================================================================
