----------------------------- MODULE MCNumeral -----------------------------
(***************************************************************************)
(* Decimal numerals: the grammar as an automaton against Numeral, and the  *)
(* comparison of numerals (CmpSci) against arithmetic on scaled integers.  *)
(***************************************************************************)
EXTENDS Values, TLC

CONSTANT MaxLen

Alphabet == {45, 46, 101, 43, 48, 49, 53, 97}     \* - . e + 0 1 5 a

VARIABLES s, st       \* the text so far, the state of the automaton
vars == <<s, st>>

(* "0" start, "-" sign, "i" digits, "." point without digits, "i." point
   behind digits, "f" fraction, "e" exponent mark, "+" its sign, "d" its
   digits *)
Go(q, ch) ==
    CASE q = "0" /\ ch = 45 -> "-"
      [] q \in {"0", "-", "i"} /\ IsDigit(ch) -> "i"
      [] q \in {"0", "-"} /\ ch = 46 -> "."
      [] q = "i" /\ ch = 46 -> "i."
      [] q \in {".", "i.", "f"} /\ IsDigit(ch) -> "f"
      [] q \in {"i", "i.", "f"} /\ ch \in {69, 101} -> "e"
      [] q = "e" /\ ch \in {43, 45} -> "+"
      [] q \in {"e", "+", "d"} /\ IsDigit(ch) -> "d"
      [] OTHER -> "no"

Init == s = <<>> /\ st = "0"
Next == /\ Len(s) < MaxLen
        /\ \E ch \in Alphabet : s' = Append(s, ch) /\ st' = Go(st, ch)
Spec == Init /\ [][Next]_vars

Grammar == Numeral(s).ok = (st \in {"i", "i.", "f", "d"})

-----------------------------------------------------------------------------
(* numerals a.b e x of small numbers, scaled by 1000 *)
Smalls == {<<i, f, x>> : i \in {<<>>, <<48>>, <<49>>, <<48, 53>>, <<49, 48>>},
                         f \in {<<48>>, <<53>>, <<48, 49>>, <<53, 48>>},
                         x \in -1..1}
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Worth(a) == LET all == a[1] \o a[2]
            IN  SmallNat(all) * Pow10(3 - Len(a[2]) + a[3])
Sign3(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

Ordered ==
    s = <<>> => \A a, b \in Smalls :
        CmpSci(Sci(a[1], a[2], a[3]), Sci(b[1], b[2], b[3]))
        = Sign3(Worth(a) - Worth(b))

(* the interval test, on numerals around an interval *)
Txt(n) == NatText(n \div 10) \o <<46>> \o NatText(n % 10)
Between ==
    s = <<>> => \A x \in 0..45, lo, hi \in {0, 10, 21, 33}, i \in {0, 1} :
        lo < hi =>
          FloatMatches(Txt(x), <<43, 59>> \o Txt(lo) \o <<59>> \o Txt(hi)
                               \o <<59, 48 + i>>)
          = (/\ IF i = 1 \/ lo = 0 THEN lo <= x ELSE lo < x
             /\ IF i = 1 THEN x <= hi ELSE x < hi)
=============================================================================
