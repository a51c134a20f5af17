------------------------------ MODULE MCValues ------------------------------
(* Every text over an alphabet and every type of the catalog. *)
EXTENDS Values, Catalog, FiniteSets, TLC

CONSTANT MaxLen

Alphabet == {48, 49, 45, 46, 97, 116}      \* 0 1 - . a t
Words == {TextTrue, TextFalse, <<>>, <<84, 114, 117, 101>>}

VARIABLES t, s
vars == <<t, s>>

AllTypes == UNION {{TypeLists[n][i] : i \in 1..Len(TypeLists[n])} :
                   n \in DOMAIN TypeLists} \ {[k |-> "void"]}

Init == /\ t \in AllTypes
        /\ s \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} \cup Words
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

c == Convert1(t, s)

(* a variant is the first alternative that accepts *)
FirstAccepts ==
    t.k = "var" =>
        LET acc == {i \in 1..Len(t.of) : Extract(t.of[i], s).ok}
        IN  /\ c.ok = (acc # {})
            /\ c.ok => \E i \in acc :
                  /\ \A j \in acc : i <= j
                  /\ c.v = NatText(i - 1) \o <<58>> \o Extract(t.of[i], s).v

(* an optional never fails, and is empty exactly if its type fails *)
OptionalTotal ==
    t.k = "opt" => /\ c.ok
                   /\ (c.v = <<45>>) = ~Extract(t.of, s).ok
                   /\ c.v # <<45>> => c.v = <<43>> \o Extract(t.of, s).v

BoolExact ==
    t.k = "bool" =>
        (c.ok <=> s \in {<<48>>, <<49>>, <<116, 114, 117, 101>>,
                         <<102, 97, 108, 115, 101>>})

(* one character, unchanged; strings take everything *)
TextExact ==
    /\ t.k = "char" => (c.ok = (Len(s) = 1)) /\ (c.ok => c.v = s)
    /\ t.k = "str" => c.ok /\ c.v = s
    /\ t.k = "enum" => (c.ok = (\E i \in 1..Len(t.names) : t.names[i] = s))

(* a restriction only takes away values, and the value stays the same *)
Restricts ==
    t.k \in Restrictions =>
        /\ c.ok => Extract(t.of, s).ok /\ c.v = Extract(t.of, s).v
        /\ ~c.ok => c.why = IF Extract(t.of, s).ok THEN "validation"
                            ELSE "conversion"

(* every type has a default value of its own form *)
Defaulted == Len(Default(t)) >= IF t.k \in {"str", "enum", "ne", "short"}
                                THEN 0 ELSE 1
=============================================================================
