------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Conversion of a split row to the values of a list of types.             *)
(* map is the column mapping of use_fields: the column (1-based) for each  *)
(* type, <<>> without mapping; ncols the number of columns of the header.  *)
(***************************************************************************)
EXTENDS Values

(* A failure names its cause w and what its report has to contain *)
NoFail == [w |-> "", at |-> 0, text |-> <<>>, exp |-> 0, got |-> 0,
           msg |-> <<>>, name |-> <<>>, line |-> 0]

RECURSIVE FirstBad(_, _, _, _)
FirstBad(T, cells, conv, i) ==
    IF i > Len(T) THEN 0
    ELSE IF T[i].k # "void" /\ ~conv[i].ok THEN i
    ELSE FirstBad(T, cells, conv, i + 1)

Voidless(T) == SelectSeq(T, LAMBDA t : t.k # "void")

Defaults(T) == LET U == Voidless(T) IN [i \in 1..Len(U) |-> Default(U[i])]

Fail(T, f) == [ok |-> FALSE, v |-> Defaults(T), fail |-> f]

ConvertRow(T, map, ncols, fields) ==
    IF map = <<>> /\ Len(T) # Len(fields)
    THEN Fail(T, [NoFail EXCEPT !.w = "columns", !.exp = Len(T),
                                !.got = Len(fields)])
    ELSE IF map # <<>> /\ Len(T) # Len(map)
    THEN Fail(T, [NoFail EXCEPT !.w = "mapping", !.exp = Len(map),
                                !.got = Len(T)])
    ELSE IF map # <<>> /\ Len(fields) # ncols
    THEN Fail(T, [NoFail EXCEPT !.w = "columns", !.exp = ncols,
                                !.got = Len(fields)])
    ELSE LET cells == [i \in 1..Len(T) |->
                         IF map = <<>> THEN fields[i] ELSE fields[map[i]]]
             conv  == [i \in 1..Len(T) |->
                         IF T[i].k = "void"
                         THEN [ok |-> TRUE, v |-> <<>>, why |-> ""]
                         ELSE Convert1(T[i], cells[i])]
             bad   == FirstBad(T, cells, conv, 1)
             keep  == SelectSeq([i \in 1..Len(T) |-> i],
                                LAMBDA i : T[i].k # "void")
         IN  IF bad # 0
             THEN Fail(T, [NoFail EXCEPT !.w = conv[bad].why, !.at = bad,
                                         !.text = cells[bad],
                                         !.msg = Complaint(T[bad])])
             ELSE [ok |-> TRUE, fail |-> NoFail,
                   v |-> [i \in 1..Len(keep) |-> conv[keep[i]].v]]

(* values reported by the implementation match the expected ones *)
ValuesMatch(T, exp, got) ==
    LET U == Voidless(T)
    IN  Len(got) = Len(U) /\ \A i \in 1..Len(U) :
            ValueMatches(U[i], exp[i], got[i])
=============================================================================
