------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* Two parsers, used interleaved, moved and assigned.  A history of the    *)
(* calls each one has seen is kept for the data it stands for: wherever    *)
(* the data are now, they are as if nothing else had happened.             *)
(***************************************************************************)
EXTENDS System, MCSetups, TLC

CONSTANTS Alphabet, MaxLen, MaxCalls

VARIABLES hist,      \* hist[i]: [from, calls]: where object i began, and the
                     \* calls made since then
          n
vars == <<inst, obs, hist, n>>

Str == [k |-> "str"]

(* the calls, as functions of a parser *)
Do(c, p) == CASE c = "get1"   -> GetNext(p, <<Str>>)
              [] c = "get2"   -> GetNext(p, <<Str, Str>>)
              [] c = "ignore" -> IgnoreNext(p)
              [] c = "use"    -> UseFields(p, <<<<97>>>>)
              [] c = "hdr"    -> Header(p)
Calls == {"get1", "get2", "ignore", "use", "hdr"}

Docs == {d \in UNION {[1..m -> Alphabet] : m \in 0..MaxLen} :
            Len(d) = 0 \/ d[Len(d)] = LF \/ Len(d) = MaxLen}

Init == /\ \E d1 \in Docs, d2 \in {<<>>, <<97, 10, 10, 97>>} :
              inst = <<New(SetupPlain, Comma, "b", <<110>>, d1, "ok").p,
                       New(SetupIgnoreEmpty, Comma, "b", <<111>>, d2, "ok").p>>
        /\ obs = [i |-> 1, o |-> Obs]
        /\ hist = [i \in 1..2 |-> [from |-> inst[i], calls |-> <<>>]]
        /\ n = 0

UseIt == \E i \in 1..Len(inst), c \in Calls :
            /\ Live(i, "parser") /\ Result(i, Do(c, inst[i]))
            /\ hist' = [hist EXCEPT ![i].calls = Append(@, c)]

(* a new object takes over *)
Take == \E i \in 1..Len(inst) :
            /\ Live(i, "parser") /\ Len(inst) < 3
            /\ inst' = Append([inst EXCEPT ![i] = Dead], inst[i])
            /\ obs' = [i |-> Len(inst) + 1, o |-> Obs]
            /\ hist' = Append(hist, hist[i])

(* the same in the place of the old one *)
Anew == \E i \in 1..Len(inst) : DoMove(i) /\ UNCHANGED hist

Over == \E i, j \in 1..Len(inst) :
            DoMoveAssign(i, j) /\ hist' = [hist EXCEPT ![i] = hist[j]]

Exchange == \E i, j \in 1..Len(inst) :
            DoSwap(i, j) /\ hist' = [hist EXCEPT ![i] = hist[j], ![j] = hist[i]]

Next == n < MaxCalls /\ n' = n + 1 /\ (UseIt \/ Take \/ Anew \/ Over \/ Exchange)
Spec == Init /\ [][Next]_vars

RECURSIVE After(_, _)
After(p, calls) == IF calls = <<>> THEN p
                   ELSE After(Do(Head(calls), p).p, Tail(calls))

Independent ==
    \A i \in 1..Len(inst) :
        Live(i, "parser") => inst[i] = After(hist[i].from, hist[i].calls)

(* the number of data that are alive never grows, and what is moved from is
   not used any more *)
MoveKeeps == [][\A i \in 1..Len(inst) :
                   ~inst[i].live => ~inst'[i].live \/ inst'[i] \in
                        {inst[j] : j \in 1..Len(inst)}]_vars
=============================================================================
