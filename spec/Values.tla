------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Conversion of the text of a field to a value of a C++ type.             *)
(*                                                                         *)
(* A type is a record with a kind k.  A value is represented by a text:    *)
(*   int   decimal text without superfluous zeros                          *)
(*   char  the character            bool  "0" or "1"                       *)
(*   str   the text itself          opt   "-" or "+" and the value         *)
(*   var   index of the alternative, ":" and the value                     *)
(*   enum  (a type with a user supplied extract) the text accepted         *)
(*   flt   not represented by one text, see FloatMatches                   *)
(* Kinds with a field of (other than opt) restrict the type "of".          *)
(***************************************************************************)
EXTENDS Bytes

None == [ok |-> FALSE, v |-> <<>>]
Some(v) == [ok |-> TRUE, v |-> v]

TextTrue == <<116, 114, 117, 101>>
TextFalse == <<102, 97, 108, 115, 101>>

-----------------------------------------------------------------------------
(* integers: t.min and t.max are stripped digits, t.sg: signed *)

Negative(s) == Len(s) > 0 /\ s[1] = MINUS

ParseInt(t, s) ==
    LET neg == t.sg /\ Negative(s)
        ds  == IF neg THEN Tail(s) ELSE s
        n   == Strip(ds)
    IN  IF Len(ds) = 0 \/ ~AllDigits(ds) THEN None
        ELSE IF ~DigitsLeq(n, IF neg THEN t.min ELSE t.max) THEN None
        ELSE Some(IF n = <<>> THEN <<ZERO>>
                  ELSE IF neg THEN <<MINUS>> \o n ELSE n)

-----------------------------------------------------------------------------
(* decimal numerals *)

(* -?(digits)(.digits)?([eE][+-]?digits)? with at least one digit *)
ExpAt(s) == SelectInSeq(s, LAMBDA c : c \in {69, 101})

Numeral(s) ==
    LET u    == IF Negative(s) THEN Tail(s) ELSE s
        ex   == ExpAt(u)
        mant == IF ex = 0 THEN u ELSE SubSeq(u, 1, ex - 1)
        et   == IF ex = 0 THEN <<>> ELSE SubSeq(u, ex + 1, Len(u))
        esig == Len(et) > 0 /\ et[1] \in {43, 45}
        ed   == IF esig THEN Tail(et) ELSE et
        dot  == SelectInSeq(mant, LAMBDA c : c = DOT)
        ip   == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
        fp   == IF dot = 0 THEN <<>> ELSE SubSeq(mant, dot + 1, Len(mant))
        en   == Strip(ed)
    IN  [ok  |-> /\ AllDigits(ip) /\ AllDigits(fp) /\ Len(ip) + Len(fp) > 0
                 /\ ex # 0 => Len(ed) > 0 /\ AllDigits(ed) /\ Len(en) <= 6,
         neg |-> Negative(s),
         ip  |-> ip,
         fp  |-> fp,
         ex  |-> IF ex = 0 \/ ~AllDigits(ed) \/ Len(en) > 6 THEN 0
                 ELSE IF esig /\ et[1] = 45 THEN -SmallNat(en)
                 ELSE SmallNat(en)]

(* absolute value as 0.d1d2d3... * 10^x with d1 # 0; zero is <<>>, 0 *)
Sci(ip, fp, ex) ==
    LET all == ip \o fp
        nz  == FirstNonZero(all)
        ds  == SubSeq(all, nz, Len(all))
    IN  IF nz > Len(all) THEN [d |-> <<>>, x |-> 0]
        ELSE [d |-> ds, x |-> Len(ip) - (nz - 1) + ex]

(* -1, 0, 1 : comparison of d-sequences read as 0.d1d2d3... *)
RECURSIVE CmpDigits(_, _, _)
CmpDigits(a, b, i) ==
    LET x == IF i <= Len(a) THEN a[i] ELSE ZERO
        y == IF i <= Len(b) THEN b[i] ELSE ZERO
    IN  IF i > Len(a) /\ i > Len(b) THEN 0
        ELSE IF x < y THEN -1 ELSE IF x > y THEN 1
        ELSE CmpDigits(a, b, i + 1)

CmpSci(a, b) ==
    IF a.d = <<>> /\ b.d = <<>> THEN 0
    ELSE IF a.d = <<>> THEN -1
    ELSE IF b.d = <<>> THEN 1
    ELSE IF a.x # b.x THEN (IF a.x < b.x THEN -1 ELSE 1)
    ELSE CmpDigits(a.d, b.d, 1)

(***************************************************************************)
(* The implementation reports a floating point value as the exact interval *)
(* of the reals that round to it: "s lo hi i" with a sign, two             *)
(* plain decimal numerals (separated by ';') and whether the ends belong   *)
(* to the interval (ties to even).  FloatMatches says that the numeral in  *)
(* the field lies in that interval.                                        *)
(***************************************************************************)
FloatMatches(s, v) ==
    LET n   == Numeral(s)
        c1  == ByteFrom(v, 59, 1)
        c2  == ByteFrom(v, 59, c1 + 1)
        c3  == ByteFrom(v, 59, c2 + 1)
        Dec(t) == LET dot == ByteFrom(t, DOT, 1)
                  IN  IF dot = 0 THEN Sci(t, <<>>, 0)
                      ELSE Sci(SubSeq(t, 1, dot - 1), Tail2(t, dot), 0)
        lo  == Dec(SubSeq(v, c1 + 1, c2 - 1))
        hi  == Dec(SubSeq(v, c2 + 1, c3 - 1))
        inc == v[c3 + 1] = 49
        x   == Sci(n.ip, n.fp, n.ex)
        l   == CmpSci(lo, x)
        h   == CmpSci(x, hi)
    IN  /\ n.ok
        /\ (v[1] = MINUS) = n.neg
        /\ l < 0 \/ (l = 0 /\ (inc \/ lo.d = <<>>))
        /\ h < 0 \/ (h = 0 /\ inc)

(* a numeral of at most 5 + 4 digits, scaled by 10^4 *)
Scaled(s) ==
    LET n == Numeral(s)
        m == SmallNat(n.ip \o SubSeq(n.fp \o <<ZERO, ZERO, ZERO, ZERO>>, 1, 4))
    IN  IF n.neg THEN -m ELSE m

-----------------------------------------------------------------------------
(* restrictions: the value is compared as a number, characters by code *)

IntOf(v) == LET neg == Negative(v)
                ds  == IF neg THEN Tail(v) ELSE v
                m   == IF Len(ds) > 9 THEN 1000000000 ELSE SmallNat(ds)
            IN  IF neg THEN -m ELSE m

Measure(t, s, v) ==
    CASE t.k = "int"  -> IntOf(v)
      [] t.k = "char" -> IF v[1] > 127 THEN v[1] - 256 ELSE v[1]
      [] t.k = "flt"  -> Scaled(s)
      [] t.k = "bool" -> v[1] - ZERO
      [] OTHER        -> Len(v)

Scale(t) == IF t.k = "flt" THEN 10000 ELSE 1

(* -1, 0, 1: comparison of integers given as texts without superfluous zeros *)
CmpInt(a, b) ==
    LET x == IF Negative(a) THEN Tail(a) ELSE a
        y == IF Negative(b) THEN Tail(b) ELSE b
    IN  IF a = b THEN 0
        ELSE IF Negative(a) # Negative(b) THEN (IF Negative(a) THEN -1 ELSE 1)
        ELSE IF DigitsLeq(x, y) # Negative(a) THEN -1 ELSE 1

Meets(t, s, v) ==
    LET of == t.of
        m  == Measure(of, s, v)
        A(i) == t.args[i] * Scale(of)
        \* the bounds of a "wide" restriction are texts
        C(i) == IF "wide" \in DOMAIN t THEN CmpInt(v, t.args[i])
                ELSE IF m < A(i) THEN -1 ELSE IF m > A(i) THEN 1 ELSE 0
    IN  CASE t.k = "ax"  -> \A i \in 1..Len(t.args) : C(i) # 0
          [] t.k = "nx"  -> \E i \in 1..Len(t.args) : C(i) = 0
          [] t.k = "gt"  -> C(1) > 0
          [] t.k = "gte" -> C(1) >= 0
          [] t.k = "lt"  -> C(1) < 0
          [] t.k = "lte" -> C(1) <= 0
          [] t.k = "ir"  -> C(1) >= 0 /\ C(2) <= 0
          [] t.k = "oor" -> C(1) < 0 \/ C(2) > 0
          [] t.k = "ne"  -> m # 0
          [] t.k = "even" -> v[Len(v)] % 2 = 0  \* user defined, with error()
          [] t.k = "short" -> m <= 3            \* user defined, without

Restrictions == {"ax", "nx", "gt", "gte", "lt", "lte", "ir", "oor", "ne",
                 "even", "short"}

-----------------------------------------------------------------------------
RECURSIVE Extract(_, _)
RECURSIVE FirstOf(_, _, _)

FirstOf(ts, s, i) ==
    IF i > Len(ts) THEN None
    ELSE LET r == Extract(ts[i], s)
         IN  IF r.ok THEN Some(NatText(i - 1) \o <<58>> \o r.v)
             ELSE FirstOf(ts, s, i + 1)

(* what the type alone makes of a text; restrictions are applied on top *)
Extract(t, s) ==
    CASE t.k = "int"  -> ParseInt(t, s)
      [] t.k = "char" -> IF Len(s) = 1 THEN Some(s) ELSE None
      [] t.k = "bool" -> IF s \in {<<49>>, TextTrue} THEN Some(<<49>>)
                         ELSE IF s \in {<<48>>, TextFalse} THEN Some(<<48>>)
                         ELSE None
      [] t.k = "str"  -> Some(s)
      [] t.k = "flt"  -> IF Numeral(s).ok THEN Some(s) ELSE None
      [] t.k = "opt"  -> LET r == Extract(t.of, s)
                         IN  IF r.ok THEN Some(<<43>> \o r.v) ELSE Some(<<45>>)
      [] t.k = "var"  -> FirstOf(t.of, s, 1)
      [] t.k = "enum" -> IF \E i \in 1..Len(t.names) : t.names[i] = s
                         THEN Some(s) ELSE None
      [] OTHER        -> Extract(t.of, s)

(* conversion of a field: ok, the value, and the kind of failure *)
Convert1(t, s) ==
    LET r == Extract(t, s)
    IN  IF ~r.ok THEN [ok |-> FALSE, v |-> <<>>, why |-> "conversion"]
        ELSE IF t.k \in Restrictions /\ ~Meets(t, s, r.v)
             THEN [ok |-> FALSE, v |-> <<>>, why |-> "validation"]
        ELSE [ok |-> TRUE, v |-> r.v, why |-> ""]

(* the message of a failed restriction: value excluded, empty field, odd
   number, validation error *)
Complaint(t) ==
    CASE t.k \in {"ax", "nx"} -> <<118, 97, 108, 117, 101, 32, 101, 120, 99, 108, 117, 100, 101, 100>>
      [] t.k = "ne"           -> <<101, 109, 112, 116, 121, 32, 102, 105, 101, 108, 100>>
      [] t.k = "even"         -> <<111, 100, 100, 32, 110, 117, 109, 98, 101, 114>>
      [] OTHER                -> <<118, 97, 108, 105, 100, 97, 116, 105, 111, 110, 32, 101, 114, 114, 111, 114>>

RECURSIVE Default(_)
Default(t) ==
    CASE t.k \in {"int", "bool"} -> <<ZERO>>
      [] t.k = "char" -> <<NUL>>
      [] t.k \in {"str", "enum"} -> <<>>
      [] t.k = "opt"  -> <<45>>
      [] t.k = "var"  -> <<ZERO, 58>> \o Default(t.of[1])
      [] t.k = "flt"  -> <<ZERO>>
      [] OTHER        -> Default(t.of)

(* value v reported by the implementation for type t; e is the value (or for
   floating point numbers: the text) the specification asks for *)
RECURSIVE ValueMatches(_, _, _)
ValueMatches(t, e, v) ==
    CASE t.k = "flt" -> FloatMatches(e, v)
      [] t.k = "opt" -> /\ Len(v) > 0 /\ v[1] = e[1]
                        /\ IF e[1] = 43
                           THEN ValueMatches(t.of, Tail(e), Tail(v))
                           ELSE v = e
      [] t.k = "var" -> /\ Len(v) >= 2 /\ v[1] = e[1] /\ v[2] = 58
                        /\ ValueMatches(t.of[e[1] - ZERO + 1],
                                        Tail2(e, 2), Tail2(v, 2))
      [] t.k \in Restrictions -> ValueMatches(t.of, e, v)
      [] OTHER -> v = e
=============================================================================
