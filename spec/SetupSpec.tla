----------------------------- MODULE SetupSpec -----------------------------
(***************************************************************************)
(* Lists of setup options: which of them are consistent, and what they     *)
(* mean.  An option has a kind k, characters cs and a number n.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Option(k, cs, n) == [k |-> k, cs |-> cs, n |-> n]

(* the options used in the checks: names as in vf/setups.py.  34 is the
   double quote, 39 the single one, 92 the backslash *)
Options == [
  quote    |-> Option("quote", {34}, 0),
  quote1   |-> Option("quote", {39}, 0),
  escape   |-> Option("escape", {92}, 0),
  escape2  |-> Option("escape", {94, 34}, 0),
  trim     |-> Option("trim", {32}, 0),
  trim2    |-> Option("trim", {95, 34}, 0),
  left     |-> Option("left", {32}, 0),
  left2    |-> Option("left", {9, 92}, 0),
  right    |-> Option("right", {95, 32}, 0),
  right2   |-> Option("right", {39, 94}, 0),
  multi    |-> Option("multi", {}, 0),
  multi2   |-> Option("multi", {}, 2),
  strerr   |-> Option("string_error", {}, 0),
  throws   |-> Option("throw_on_error", {}, 0),
  noempty  |-> Option("ignore_empty", {}, 0),
  noheader |-> Option("ignore_header", {}, 0),
  alien    |-> Option("alien", {}, 0) ]       \* a type that is no option

Kinds == {"quote", "escape", "trim", "left", "right", "multi", "string_error",
          "throw_on_error", "ignore_empty", "ignore_header"}

(* L: a sequence of options *)
Has1(L, k)   == \E i \in 1..Len(L) : L[i].k = k
Count(L, k)  == Cardinality({i \in 1..Len(L) : L[i].k = k})
Chars(L, ks) == UNION {L[i].cs : i \in {j \in 1..Len(L) : L[j].k \in ks}}

Trims == {"trim", "left", "right"}

Consistent(L) ==
    /\ \A i \in 1..Len(L) : L[i].k \in Kinds
    /\ \A k \in Kinds : Count(L, k) <= 1
    /\ Chars(L, {"quote"}) \cap Chars(L, {"escape"}) = {}
    /\ Chars(L, {"quote", "escape"}) \cap Chars(L, Trims) = {}
    /\ Has1(L, "trim") => ~Has1(L, "left") /\ ~Has1(L, "right")
    /\ Has1(L, "multi") => Has1(L, "quote") \/ Has1(L, "escape")
    /\ ~(Has1(L, "string_error") /\ Has1(L, "throw_on_error"))

(* what a consistent list means *)
Meaning(L) ==
    [q  |-> Chars(L, {"quote"}),
     e  |-> Chars(L, {"escape"}),
     tl |-> Chars(L, {"trim", "left"}),
     tr |-> Chars(L, {"trim", "right"}),
     ml |-> Has1(L, "multi"),
     lim |-> IF Has1(L, "multi")
             THEN L[CHOOSE i \in 1..Len(L) : L[i].k = "multi"].n ELSE 0,
     ie |-> Has1(L, "ignore_empty"),
     ih |-> Has1(L, "ignore_header")]

ErrorMode(L) == IF Has1(L, "string_error") THEN "s"
                ELSE IF Has1(L, "throw_on_error") THEN "t" ELSE "b"

Listed(names) == [i \in 1..Len(names) |-> Options[names[i]]]
=============================================================================
