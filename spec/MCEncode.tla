------------------------------ MODULE MCEncode ------------------------------
(***************************************************************************)
(* Whatever is written is read back (with every way to write it, up to a   *)
(* length).  The documents are printed for the conformance check.          *)
(***************************************************************************)
EXTENDS Encode, Catalog, TLC, Json

CONSTANTS Alphabet, MaxText, SetupName, DelimName

MCSetup == Setups[SetupName]
Delim   == Delims[DelimName]

VARIABLE w

Init == w = Writer
Next == /\ w' \in Steps(MCSetup, Delim, w, Alphabet)
        /\ Len(w'.text) <= MaxText
Spec == Init /\ [][Next]_w

RoundTrip ==
    Complete(w) =>
        LET r == ReadAll(MCSetup, Delim, w.text, 1)
        IN  r.ok /\ r.rows = Written(w)

(* nothing that is written is lost from one step to the next *)
Grows == [][/\ Len(w'.text) >= Len(w.text)
            /\ SubSeq(w'.text, 1, Len(w.text)) = w.text]_w

(* for the conformance check *)
Show == (Complete(w) /\ Len(w.text) > 0) =>
           PrintT("DOC " \o ToJson([text |-> w.text, rows |-> Written(w)]))
=============================================================================
