------------------------------- MODULE MCInt -------------------------------
(***************************************************************************)
(* Every text over digits, a minus and another character, read digit by    *)
(* digit with an overflow test (the algorithm behind std::from_chars), for *)
(* integer types small enough that their arithmetic can be done here.      *)
(***************************************************************************)
EXTENDS Values, TLC

CONSTANT MaxLen

Types == {[k |-> "int", sg |-> TRUE, min |-> <<49, 50, 56>>,
           max |-> <<49, 50, 55>>],                          \* -128..127
          [k |-> "int", sg |-> FALSE, min |-> <<>>,
           max |-> <<50, 53, 53>>],                          \* 0..255
          [k |-> "int", sg |-> TRUE, min |-> <<57>>, max |-> <<56>>]}
Lo(t) == -SmallNat(t.min)
Hi(t) == SmallNat(t.max)

Alphabet == {45, 48, 49, 50, 53, 54, 55, 56, 57, 97}

VARIABLES t, s, i, acc, st     \* st: "sign", "digits", "ok", "bad"
vars == <<t, s, i, acc, st>>

Init == /\ t \in Types
        /\ s \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ i = 1 /\ acc = 0 /\ st = "sign"

neg == t.sg /\ Negative(s)

Sign == /\ st = "sign"
        /\ i' = IF neg THEN 2 ELSE 1
        /\ st' = IF (IF neg THEN 2 ELSE 1) > Len(s) THEN "bad" ELSE "digits"
        /\ UNCHANGED <<t, s, acc>>

Digit == /\ st = "digits" /\ i <= Len(s)
         /\ LET c == s[i] - ZERO
                \* exact: the next value would leave the range
                next == IF neg THEN 10 * acc - c ELSE 10 * acc + c
            IN  IF ~IsDigit(s[i]) \/ next < Lo(t) \/ next > Hi(t)
                THEN st' = "bad" /\ UNCHANGED <<acc, i>>
                ELSE acc' = next /\ i' = i + 1 /\ UNCHANGED st
         /\ UNCHANGED <<t, s>>

Accept == st = "digits" /\ i > Len(s) /\ st' = "ok" /\ UNCHANGED <<t, s, i, acc>>

Next == Sign \/ Digit \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ParseInt against arithmetic *)
Exact8 ==
    LET r  == ParseInt(t, s)
        ds == IF neg THEN Tail(s) ELSE s
        wf == ds # <<>> /\ AllDigits(ds)
        n  == IF ~wf THEN 0 ELSE IF neg THEN -SmallNat(ds) ELSE SmallNat(ds)
    IN  /\ r.ok = (wf /\ n >= Lo(t) /\ n <= Hi(t))
        /\ r.ok => r.v = IntText(n)

(* the algorithm against ParseInt *)
Refines ==
    /\ st = "bad" => ~ParseInt(t, s).ok
    /\ st = "ok"  => ParseInt(t, s).ok /\ ParseInt(t, s).v = IntText(acc)
    /\ acc >= Lo(t) /\ acc <= Hi(t)

Decides == <>(st \in {"ok", "bad"})
=============================================================================
