----------------------------- MODULE MCGetline -----------------------------
(***************************************************************************)
(* The two ways ss::parser gets a line without getline(): character by     *)
(* character from a file (getc) or from a memory buffer, into a growing    *)
(* buffer.  Both refine LineAt, whatever the characters are, and never     *)
(* write behind the end of the buffer.                                     *)
(***************************************************************************)
EXTENDS MCSetups, TLC

CONSTANTS Alphabet, MaxLen,
          Chunk            \* size of the smallest buffer

VARIABLES d, how,          \* document, "file" or "buffer"
          p,               \* bytes taken
          start,           \* where the line begins
          line, cap,       \* the buffer: contents without the NUL behind, capacity
          pc, used         \* "idle", "busy", "got", "end"; largest write
vars == <<d, how, p, start, line, cap, pc, used>>

Init == /\ d \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ how \in {"file", "buffer"}
        /\ p = 0 /\ start = 0 /\ line = <<>> /\ cap = 0
        /\ pc = "idle" /\ used = 0

Begin == /\ pc \in {"idle", "got"}
         /\ start' = p /\ line' = <<>>
         /\ IF how = "buffer" /\ p >= Len(d)
            THEN pc' = "end" /\ cap' = cap
            ELSE pc' = "busy" /\ cap' = Max2(cap, Chunk)
         /\ used' = 0
         /\ UNCHANGED <<d, how, p>>

(* the end of a memory buffer is known, that of a file is found by reading *)
Copied ==
    /\ pc = "busy"
    /\ IF p >= Len(d)
       THEN /\ pc' = IF line = <<>> THEN "end" ELSE "got"
            /\ used' = Len(line) + 1
            /\ UNCHANGED <<p, line, cap>>
       ELSE /\ cap' = IF Len(line) + 1 >= cap THEN 2 * cap ELSE cap
            /\ line' = Append(line, d[p + 1]) /\ p' = p + 1
            /\ used' = Len(line) + 2
            /\ pc' = IF d[p + 1] = LF THEN "got" ELSE "busy"
    /\ UNCHANGED <<d, how, start>>

Next == Begin \/ Copied
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refines ==
    /\ pc = "got" => /\ line # <<>>
                     /\ p = LineAt(d, start + 1).next - 1
                     /\ line = SubSeq(d, start + 1, p)
    /\ pc = "end" => p = Len(d) /\ start = Len(d)

Fits == used <= cap

Ends == <>(pc = "end")
=============================================================================
