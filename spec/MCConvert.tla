------------------------------ MODULE MCConvert ------------------------------
(***************************************************************************)
(* Every list of types against every row of few columns, with and without  *)
(* a mapping.                                                              *)
(***************************************************************************)
EXTENDS Convert, FiniteSets, TLC

CONSTANT MaxCols

Types == {[k |-> "str"], [k |-> "char"], [k |-> "void"],
          [k |-> "opt", of |-> [k |-> "char"]],
          [k |-> "ne", of |-> [k |-> "str"], args |-> <<>>]}
Cells == {<<>>, <<97>>, <<97, 97>>}

Seqs(set, n) == UNION {[1..m -> set] : m \in 0..n}

VARIABLES T, f, map, nc
vars == <<T, f, map, nc>>

Init == /\ T \in Seqs(Types, MaxCols) \ {<<>>}
        /\ f \in Seqs(Cells, MaxCols)
        /\ nc \in 1..MaxCols
        /\ map \in {<<>>} \cup {m \in Seqs(1..nc, MaxCols) :
                      Cardinality({m[i] : i \in 1..Len(m)}) = Len(m)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

c == ConvertRow(T, map, nc, f)

Col(i) == IF map = <<>> THEN i ELSE map[i]
Fits == IF map = <<>> THEN Len(T) = Len(f)
        ELSE Len(T) = Len(map) /\ Len(f) = nc
Takes(i) == T[i].k = "void" \/ Convert1(T[i], f[Col(i)]).ok

AllOrNothing ==
    /\ c.ok = (Fits /\ \A i \in 1..Len(T) : Takes(i))
    /\ ~c.ok => c.v = Defaults(T) /\ c.fail.w # ""
    /\ Len(c.v) = Cardinality({i \in 1..Len(T) : T[i].k # "void"})
    /\ c.ok => c.fail = NoFail

(* void columns are neither converted nor delivered; the others come in
   order *)
Voids ==
    c.ok => \A i \in 1..Len(T) : T[i].k # "void" =>
        c.v[Cardinality({j \in 1..i : T[j].k # "void"})]
        = Convert1(T[i], f[Col(i)]).v

(* the failure names the first column that is bad, and its text *)
FirstNamed ==
    (~c.ok /\ c.fail.w \in {"conversion", "validation"}) =>
        /\ Fits /\ ~Takes(c.fail.at)
        /\ \A i \in 1..(c.fail.at - 1) : Takes(i)
        /\ c.fail.text = f[Col(c.fail.at)]

(* other columns of the row do not matter with a mapping *)
Irrelevant ==
    (map # <<>> /\ Fits) =>
        \A i \in 1..Len(f), x \in Cells :
            i \notin {map[j] : j \in 1..Len(map)} =>
                ConvertRow(T, map, nc, [f EXCEPT ![i] = x]) = c
=============================================================================
