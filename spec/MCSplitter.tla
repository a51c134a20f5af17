----------------------------- MODULE MCSplitter -----------------------------
(***************************************************************************)
(* The algorithm of ss::splitter, step by step, on every row over an       *)
(* alphabet: it refines the meaning of a row (Split).                      *)
(***************************************************************************)
EXTENDS Inplace, TLC

CONSTANTS Alphabet, MaxLen, MCSetup, Delim

VARIABLES row, z
vars == <<row, z>>

S == MCSetup
D == Delim

Init == /\ row \in UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
        /\ z = NewSplit(S, row \o <<NUL>>)
Next == ~z.done /\ z' = SplitStep(S, D, z) /\ UNCHANGED row
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refines ==
    z.done => LET r == SplitRow(S, D, row)
              IN  /\ z.err = r.err
                  /\ z.uq = (r.err = "quote")
                  /\ z.err = "" => Slices(z) = r.f
                  /\ z.err = "mismatched" => z.at = r.at

(* the slices and pointers stay inside of the row *)
Inside ==
    /\ z.b \in 1..(Len(row) + 1) /\ z.e \in 1..(Len(row) + 1)
    /\ z.c \in 1..(Len(row) + 1)
    /\ z.pc # "field" => (z.b <= z.c /\ z.c <= z.e)
    /\ \A i \in 1..Len(z.out) :
          1 <= z.out[i][1] /\ z.out[i][1] <= z.out[i][2]
          /\ z.out[i][2] <= Len(row) + 1
    /\ Len(z.mem) = Len(row) + 1 /\ z.mem[Len(z.mem)] = NUL

(* fields that are finished are not touched any more *)
Settled == [][\A i \in 1..Len(z.out) :
                 z'.out[i] = z.out[i]
                 /\ SubSeq(z'.mem, z.out[i][1], z.out[i][2] - 1)
                    = SubSeq(z.mem, z.out[i][1], z.out[i][2] - 1)]_z

Terminates == <>z.done
=============================================================================
