------------------------------- MODULE MCRows -------------------------------
(***************************************************************************)
(* Every document over an alphabet is cut into lines, one step a line.     *)
(***************************************************************************)
EXTENDS Rows, FiniteSets, TLC

CONSTANTS Alphabet, MaxLen

VARIABLES d, pos, out     \* the document, the cursor, the lines taken

vars == <<d, pos, out>>

Init == /\ d \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ pos = 1 /\ out = <<>>

Next == /\ ~AtEnd(d, pos)
        /\ LET ln == LineAt(d, pos)
           IN  out' = Append(out, ln) /\ pos' = ln.next
        /\ UNCHANGED d

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the bytes of the lines taken are the document up to the cursor *)
Bytes2 == FoldLeft(LAMBDA acc, ln : acc \o ln.text \o ln.eol, <<>>, out)

(* where the lines start, without reading line by line *)
Starts == {1} \cup {i + 1 : i \in {j \in 1..Len(d) : d[j] = LF}}

Framing ==
    /\ SubSeq(d, 1, pos - 1) = Bytes2
       \/ (AtEnd(d, pos) /\ d # <<>> /\ d[Len(d)] # LF /\ d \o <<LF>> = Bytes2)
    /\ \A i \in 1..Len(out) :
          /\ ~Has(out[i].text, <<LF>>)
          \* the text ends with CR only if the data did not go on with LF
          /\ (out[i].text # <<>> /\ out[i].text[Len(out[i].text)] = CR)
                => \/ out[i].eol = <<CR, LF>>
                   \/ out[i].next = Len(d) + 1 /\ d[Len(d)] # LF
    /\ pos \in Starts \cup {Len(d) + 1}
    /\ Len(out) = Cardinality({s \in Starts : s < pos /\ s <= Len(d)})

(* exactly the empty lines in front of the cursor are skipped *)
Blank ==
    LET b == SkipBlank(d, pos, Len(out))
        S == {s \in Starts : s >= pos /\ s <= Len(d)}
        full == {s \in S : LineAt(d, s).text # <<>>}
        first == IF full = {} THEN Len(d) + 1
                 ELSE CHOOSE s \in full : \A u \in full : s <= u
    IN  /\ b.p = first
        /\ b.n - Len(out) = Cardinality({s \in S : s < first})

(* every document is read to its end *)
Ends == <>[](AtEnd(d, pos))

=============================================================================
