------------------------------- MODULE MCFrame -------------------------------
(* Every interleaving of operations of two simulations built from the same   *)
(* inputs, up to a bounded length; histories are printed for the driver.     *)
EXTENDS Frame, TLC, Json
CONSTANTS MaxLen, Gen
Sims == {1, 2}
VARIABLES w, hist
vars == <<w, hist>>
Init == w = FInit(Sims, "inputs") /\ hist = <<>>
Op(op, k) == /\ Len(hist) < MaxLen
             /\ FCan(w, op, k)
             /\ hist = <<>> => (op = "run" /\ k = 1)         \* nothing else makes a difference before the first run
             /\ LET e == [op |-> op, k |-> k, seed |-> 10 * k + Len(Mine(hist, k))] IN
                  hist' = Append(hist, e) /\ w' = FDo(w, op, k, e.seed)
Next == \E op \in Sampling \cup Reads, k \in Sims : Op(op, k)
Spec == Init /\ [][Next]_vars
UserUnchanged == w.user = "inputs"
(* results do not depend on the other simulation nor on what was done with results *)
Isolated == \A k \in Sims : w.res[k] = Alone(FInit(Sims, "inputs"), Mine(hist, k), 1).res[k]
OldResultsKept == [][\A k \in Sims : Len(w'.res[k]) >= Len(w.res[k]) /\ SubSeq(w'.res[k], 1, Len(w.res[k])) = w.res[k]]_vars
Emit == (Gen /\ Len(hist) = MaxLen) => PrintT("GEN " \o ToJson(hist))
=============================================================================
