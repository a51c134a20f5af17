------------------------------ MODULE MCSetups ------------------------------
(* setups and delimiters the models are checked for *)
EXTENDS Rows

NoSetup == [q |-> {}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> FALSE,
            lim |-> 0, ie |-> FALSE, ih |-> FALSE]

SetupPlain == NoSetup
SetupTrim  == [NoSetup EXCEPT !.tl = {32}, !.tr = {32}]
SetupTrimL == [NoSetup EXCEPT !.tl = {32, 95}]
SetupTrimR == [NoSetup EXCEPT !.tr = {32, 95}]
SetupQ     == [NoSetup EXCEPT !.q = {34}]
SetupE     == [NoSetup EXCEPT !.e = {92}]
SetupQE    == [SetupQ EXCEPT !.e = {92}]
SetupFull  == [SetupQE EXCEPT !.tl = {32}, !.tr = {32}]
SetupQTL   == [SetupQE EXCEPT !.tl = {32}]
SetupQTR   == [SetupQE EXCEPT !.tr = {32}]

SetupMulti  == [SetupQE EXCEPT !.ml = TRUE]
SetupMultiQ == [SetupQ EXCEPT !.ml = TRUE]
SetupMultiE == [SetupE EXCEPT !.ml = TRUE]
SetupMultiT == [SetupFull EXCEPT !.ml = TRUE]
SetupMulti1 == [SetupMulti EXCEPT !.lim = 1]
SetupMulti2 == [SetupMulti EXCEPT !.lim = 2]
SetupQm1    == [SetupMultiQ EXCEPT !.lim = 1]
SetupMultiIgnoreEmpty == [SetupMulti EXCEPT !.ie = TRUE]
SetupIgnoreEmpty  == [NoSetup EXCEPT !.ie = TRUE]
SetupIgnoreHeader == [SetupQ EXCEPT !.ih = TRUE, !.ie = TRUE]

Comma  == <<44>>
Colons == <<58, 58>>       \* "::"
ColonX == <<58, 59>>       \* ":;"
Aab    == <<97, 97, 98>>   \* "aab"
=============================================================================
