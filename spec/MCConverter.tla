---------------------------- MODULE MCConverter ----------------------------
(***************************************************************************)
(* One converter under every short sequence of calls: what it makes of a   *)
(* line is what a new converter makes of it.                               *)
(***************************************************************************)
EXTENDS System, MCSetups, TLC

CONSTANTS Alphabet, MaxLen, MaxCalls

VARIABLES n, last       \* calls made; the line last split, for cached reads
vars == <<inst, obs, n, last>>

Str == [k |-> "str"]
Chr == [k |-> "char"]
Lists == {<<Str>>, <<Chr>>, <<Str, Str>>}
Lines == UNION {[1..m -> Alphabet] : m \in 0..MaxLen}

New1 == NewConverter(SetupQ, "b").p

Init == inst = <<New1>> /\ obs = [i |-> 1, o |-> Obs] /\ n = 0 /\ last = <<>>

Line == \E s \in Lines, T \in Lists :
            DoConvert(1, T, s, Comma) /\ last' = s
Cut  == \E s \in Lines : DoSplit(1, s, Comma) /\ last' = s
Cached == \E T \in Lists : DoConvertLast(1, T) /\ UNCHANGED last
Fields == \E T \in Lists : DoConvertFields(1, T, <<<<97>>>>) /\ UNCHANGED last

Next == n < MaxCalls /\ n' = n + 1 /\ (Line \/ Cut \/ Cached \/ Fields)
Spec == Init /\ [][Next]_vars

C == inst[1]

Memoryless ==
    \A s \in Lines, T \in Lists :
        /\ ConvertLine(C, T, s, Comma) = ConvertLine(New1, T, s, Comma)
        /\ SplitOnly(C, s, Comma).o = SplitOnly(New1, s, Comma).o

(* the cached row is the row last split *)
CacheTrue ==
    \A T \in Lists :
        ConvertLast(C, T) = ConvertLast(SplitLine(New1, last, Comma), T)

(* given fields are converted as the row they were cut from *)
FieldsTrue ==
    \A s \in Lines, T \in Lists :
        LET r == SplitRow(SetupQ, Comma, s)
        IN  (r.err = "" /\ C.last.err = "") =>
                ConvertFields(C, T, r.f).o = ConvertLine(New1, T, s, Comma).o
=============================================================================
