------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* Calls as records, in the form in which they are recorded (Trace) and    *)
(* generated (MCTour): the action of System which a call stands for.       *)
(***************************************************************************)
EXTENDS System, Catalog, SetupSpec

(* a setup of the catalogue, or one given by its options *)
SetupOf(c) == IF "opts" \in DOMAIN c THEN Meaning(Listed(c.opts))
              ELSE Setups[c.setup]
ModeOf(c)  == IF "opts" \in DOMAIN c THEN ErrorMode(Listed(c.opts)) ELSE c.em

(* alternatives of a chain call *)
AltsOf(c) == [k \in 1..Len(c.tls) |->
                [T |-> TypeLists[c.tls[k]], cb |-> c.cbs[k], oe |-> c.oes[k] = 1]]

(* what the body of a loop does *)
BodyOf(c) == IF c.body = "" THEN <<>> ELSE TypeLists[c.body]

(* what a call with op "new" creates *)
Made(c) == IF c.src = "conv" THEN NewConverter(SetupOf(c), ModeOf(c))
           ELSE New(SetupOf(c), c.delim, ModeOf(c), c.name, c.data, c.src)

Called(c) ==
    \/ c.op = "new"        /\ Create(Made(c))
    \/ c.op = "get"        /\ DoGet(c.i, TypeLists[c.tl])
    \/ c.op = "loop"       /\ DoLoop(c.i, TypeLists[c.tl], c.n)
    \/ c.op = "loopwith"   /\ DoLoopWith(c.i, TypeLists[c.tl], c.n, BodyOf(c))
    \/ c.op = "chain"      /\ DoChain(c.i, AltsOf(c))
    \/ c.op = "ignore"     /\ DoIgnore(c.i)
    \/ c.op = "raw"        /\ DoRawHeader(c.i)
    \/ c.op = "hdr"        /\ DoHeader(c.i)
    \/ c.op = "fexists"    /\ DoFieldExists(c.i, c.field)
    \/ c.op = "use"        /\ DoUseFields(c.i, c.fields)
    \/ c.op = "query"      /\ DoQuery(c.i)
    \/ c.op = "take"       /\ DoTake(c.i, c.o.st = "ok" /\ c.o.valid = 1)
    \/ c.op = "drain"      /\ DoDrain(c.i)
    \/ c.op = "move"       /\ DoMove(c.i)
    \/ c.op = "assign"     /\ DoMoveAssign(c.i, c.j)
    \/ c.op = "swap"       /\ DoSwap(c.i, c.j)
    \/ c.op = "delete"     /\ DoDelete(c.i)
    \/ c.op = "end"        /\ DoQueryAll
    \/ c.op = "conv"       /\ DoConvert(c.i, TypeLists[c.tl], c.line, c.delim)
    \/ c.op = "split"      /\ DoSplit(c.i, c.line, c.delim)
    \/ c.op = "convlast"   /\ DoConvertLast(c.i, TypeLists[c.tl])
    \/ c.op = "convfields" /\ DoConvertFields(c.i, TypeLists[c.tl], c.fields)
=============================================================================
