----------------------------- MODULE MCRestrict -----------------------------
(* Restrictions on integers against the relations they are named after. *)
EXTENDS Values, FiniteSets, TLC

CONSTANT Bound

Int8 == [k |-> "int", sg |-> TRUE, min |-> <<49, 50, 56>>,
         max |-> <<49, 50, 55>>]

VARIABLES k, a, b, n
vars == <<k, a, b, n>>

Init == /\ k \in {"ax", "nx", "gt", "gte", "lt", "lte", "ir", "oor"}
        /\ a \in -3..3 /\ b \in -3..3
        /\ n \in -Bound..Bound
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

T(kind) == [k |-> kind, of |-> Int8, args |-> <<a, b>>]
Good(kind) == Convert1(T(kind), IntText(n)).ok

Relations ==
    /\ Good("gt") = (n > a) /\ Good("gte") = (n >= a)
    /\ Good("lt") = (n < a) /\ Good("lte") = (n <= a)
    /\ Good("ir") = (n \in a..b) /\ Good("oor") = (n \notin a..b)
    /\ Good("ax") = (n \notin {a, b}) /\ Good("nx") = (n \in {a, b})

(* bounds given as texts, which may be wider than the numbers of TLC *)
Wide ==
    LET W(kind) == Convert1([k |-> kind, of |-> Int8, wide |-> TRUE,
                             args |-> <<IntText(a * 9), IntText(b * 9)>>],
                            IntText(n)).ok
        S(kind) == Convert1([k |-> kind, of |-> Int8,
                             args |-> <<a * 9, b * 9>>], IntText(n)).ok
    IN  W(k) = S(k)

(* what a restriction lets through it lets through unchanged, and what it
   does not let through names its message *)
Unchanged ==
    LET r == Convert1(T(k), IntText(n))
    IN  /\ r.ok => r.v = IntText(n)
        /\ ~r.ok => r.why = "validation" /\ Complaint(T(k)) # <<>>

(* characters are compared by their (signed) code *)
Chars ==
    LET C(kind) == Convert1([k |-> kind, of |-> [k |-> "char"],
                             args |-> <<a, b>>], <<(n + 256) % 256>>).ok
    IN  n \in -128..127 => /\ C("gt") = (n > a) /\ C("ir") = (n \in a..b)
                           /\ C("ax") = (n \notin {a, b})
=============================================================================
