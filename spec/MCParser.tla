------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* One parser on every document over an alphabet, under every sequence of  *)
(* public calls.                                                           *)
(***************************************************************************)
EXTENDS System, MCSetups, FiniteSets, TLC

CONSTANTS Alphabet, MaxLen, MCSetup, Mode

VARIABLE op           \* the last call

vars == <<inst, obs, op>>

Str == [k |-> "str"]
Chr == [k |-> "char"]
Lists == {<<Str>>, <<Str, Str>>, <<Chr>>}

(* names that occur in headers, and one that does not *)
Names1 == {<<>>, <<97>>, <<98>>}
FieldLists == {<<>>} \cup {<<a>> : a \in Names1}
              \cup {<<a, b>> : a, b \in Names1}

ChainOf == <<[T |-> <<Chr>>, cb |-> "no", oe |-> TRUE],
             [T |-> <<Str>>, cb |-> "void", oe |-> TRUE]>>

P == inst[1]

Init == /\ \E d \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} :
              LET r == New(MCSetup, Comma, Mode, <<110>>, d, "ok")
              IN  inst = <<r.p>> /\ obs = [i |-> 1, o |-> r.o]
        /\ op = "new"

Read   == \/ \E T \in Lists : DoGet(1, T)
          \/ DoChain(1, ChainOf)
Get    == Read /\ op' = IF P.eof THEN "end" ELSE "get"
Ignore == DoIgnore(1) /\ op' = "ignore"
Query  == \/ /\ DoRawHeader(1) \/ DoHeader(1)
                \/ \E f \in Names1 : DoFieldExists(1, f)
             /\ op' = "query"
Use    == \E fs \in FieldLists :
             DoUseFields(1, fs)
             /\ op' = IF inst'[1].valid THEN "use" ELSE "useless"

Next == Get \/ Ignore \/ Query \/ Use
Spec == Init /\ [][Next]_vars /\ WF_vars(Get)

(* obs and the cause of the last error do not influence what follows *)
View == <<inst, op>>

-----------------------------------------------------------------------------
LFs(s) == FoldLeft(LAMBDA n, c : IF c = LF THEN n + 1 ELSE n, 0, s)

(* the cursor is at the start of a line, and counts the lines before it *)
Cursor ==
    LET done == SubSeq(P.d, 1, P.pos - 1)
    IN  /\ P.pos \in 1..(Len(P.d) + 1)
        /\ P.pos = 1 \/ P.pos = Len(P.d) + 1 \/ P.d[P.pos - 1] = LF
        /\ P.line = LFs(done) + (IF done # <<>> /\ done[Len(done)] # LF
                                 THEN 1 ELSE 0)

(* eof exactly if there is nothing to be read any more *)
EofTight ==
    LET rest == Tail2(P.d, P.pos - 1)
    IN  P.eof = (rest = <<>>) /\ ((P.S.ie /\ ~P.eof) => rest[1] # LF)

(* rows do not depend on what surrounds them: neither on the rows before,
   nor, unless the data end inside of it, on the rows behind *)
Isolated ==
    ~P.eof =>
        LET r  == RowAt(P.S, P.D, P.d, P.pos)
            r1 == RowAt(P.S, P.D, Tail2(P.d, P.pos - 1), 1)
            r2 == RowAt(P.S, P.D, SubSeq(P.d, 1, r.next - 1), P.pos)
        IN  /\ r1 = [r EXCEPT !.next = @ - (P.pos - 1)]
            /\ r2 = r
            /\ r.next > P.pos /\ r.lines >= 1

(* a read says whether it failed, whatever was wrong before, and what was
   wrong is forgotten with the next row that is fine *)
Truthful ==
    \A T \in Lists :
        LET g == GetNext(P, T)
        IN  /\ P.em # "t" => g.p.valid = (g.o.st = "ok")
            /\ (g.o.st = "ok") = (g.o.fail = NoFail)
            /\ P.eof => g.o.st = "fail" /\ g.o.fail.w = "eof"
            /\ \A U \in Lists :
                  ~g.p.eof => GetNext(g.p, U).o
                            = GetNext([g.p EXCEPT !.valid = TRUE,
                                                  !.why = NoFail], U).o

(* a mapping names the columns whose names were given, each once *)
Mapped ==
    P.map # <<>> =>
        /\ \A i \in 1..Len(P.map) : P.map[i] \in 1..P.ncols
        /\ Cardinality({P.map[i] : i \in 1..Len(P.map)}) = Len(P.map)
        /\ P.hdr # <<>> => P.ncols = Len(P.hdr)

(* the columns whose names were given are those that are read, in their order *)
Delivered ==
    /\ \A fs \in FieldLists :
          LET u == UseFields(P, fs).p
              h == HeaderFields(P).f
          IN  u.valid => /\ Len(u.map) = Len(fs)
                         /\ \A i \in 1..Len(fs) : h[u.map[i]] = fs[i]
    /\ \A T \in {<<Str>>, <<Str, Str>>} :
          LET g == GetNext(P, T)
              r == RowAt(P.S, P.D, P.d, P.pos)
          IN  (P.map # <<>> /\ ~P.eof) =>
                /\ (g.o.st = "ok") = (/\ r.err = "" /\ Len(r.f) = P.ncols
                                     /\ Len(T) = Len(P.map))
                /\ g.o.st = "ok" => g.o.v = [i \in 1..Len(T) |->
                                              r.f[P.map[i]]]

(* the header is the first row, whatever was done so far *)
HeaderTrue ==
    LET first == MoveTo([P EXCEPT !.pos = 1], 1, 0)
        raw   == IF first.eof THEN <<>> ELSE LineAt(P.d, first.pos).text
        h     == HeaderFields(P)
        \* the row there, if rows were single lines
        row   == RowAt([P.S EXCEPT !.ml = FALSE], P.D, P.d, first.pos)
    IN  ~P.S.ih =>
        /\ RawHeader(P).o.v = <<raw>>
        /\ raw # <<>> => h.err = row.err /\ h.f = row.f
        /\ (h.err = "" /\ FirstRepeated(h.f) = 0) =>
             \A f \in Names1 :
                   (FieldExists(P, f).o.x = <<1>>)
                   = (\E i \in 1..Len(h.f) : h.f[i] = f)

-----------------------------------------------------------------------------
Place2 == <<P.pos, P.line, P.eof>>

(* nothing moves the cursor back; a read which is not at the end moves it *)
Forward == [][/\ inst'[1].pos >= P.pos /\ inst'[1].line >= P.line
              /\ op' = "get" => inst'[1].pos > P.pos
              /\ op' = "end" => inst'[1] = InError(P, Failure(P, "eof"))
              /\ (op' = "ignore" /\ ~P.eof) => inst'[1].pos > P.pos
              /\ (op' = "ignore" /\ ~P.eof) =>
                    LET q == inst'[1]
                        ln == LineAt(P.d, P.pos)
                    IN  IF P.S.ie THEN q.pos >= ln.next /\ q.line > P.line
                        ELSE q.pos = ln.next /\ q.line = P.line + 1
              /\ inst'[1].d = P.d /\ inst'[1].S = P.S]_vars

(* queries and failed use_fields change neither cursor nor mapping *)
QueriesChangeNothing ==
    [][op' \in {"query", "useless"} =>
          /\ inst'[1].map = P.map /\ inst'[1].ncols = P.ncols
          /\ <<inst'[1].pos, inst'[1].line, inst'[1].eof>> = Place2]_vars

(* use_fields passes the header once and nothing else *)
UsePasses ==
    [][op' = "use" =>
          inst'[1].pos = IF P.line = P.hline /\ ~P.eof
                         THEN SkipLine(P).pos ELSE P.pos]_vars

(* the mapping stays until the next successful use_fields *)
MappingStays == [][op' # "use" => inst'[1].map = P.map]_vars

(* reading ends *)
Ends == <>(P.eof)
=============================================================================
