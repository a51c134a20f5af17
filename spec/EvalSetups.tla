----------------------------- MODULE EvalSetups -----------------------------
(* what the specification says about lists of options given in a file *)
EXTENDS SetupSpec, TLC, Json, IOUtils

In == ndJsonDeserialize(IOEnv.IN)

Out == [i \in 1..Len(In) |->
          LET L == Listed(In[i].v)
          IN  [ok |-> Consistent(L), em |-> ErrorMode(L)]]

ASSUME ndJsonSerialize(IOEnv.OUT, Out)
=============================================================================
