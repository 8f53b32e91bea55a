----------------------------- MODULE MCParallel -----------------------------
(* All schedules of at most MaxN chains on at most MaxW workers; complete    *)
(* behaviours are printed as orders of finishing for the driver.             *)
EXTENDS Parallel, Json
CONSTANTS MaxN, MaxW, Gen
VARIABLE p
Init == \E n \in 1..MaxN, w \in 1..MaxW : p = PInit(n, w)
Next == \/ \E k \in 1..p.w : CanStart(p, k) /\ p' = Start(p, k)
        \/ \E i \in 1..p.n : CanFinish(p, i) /\ p' = Finish(p, i)
        \/ \E i \in 1..p.n : CanFinish(p, i) /\ p.bad = {} /\ p' = Fail(p, i)
Spec == Init /\ [][Next]_p /\ WF_p(Next)
(* C17 on the model *)
OwnResult == (Outcome(p) = "results" => \A i \in 1..p.n : p.out[i] = i) /\ \A i \in 1..p.n : p.out[i] \in {0, i}
OwnStream == \A i, j \in 1..p.n : i # j /\ p.stream[i] # 0 => p.stream[i] # p.stream[j]
NoMoreThanWorkers == Cardinality(p.run) <= p.w /\ Cardinality(Busy(p)) = Cardinality(p.run)
EachOnce == \A a, b \in 1..Len(p.fin) : a # b => p.fin[a] # p.fin[b]
AllFinish == <>Done(p)
Emit == (Gen /\ Done(p)) => PrintT("GEN " \o ToJson([bad |-> IF p.bad = {} THEN 0 ELSE CHOOSE i \in p.bad : TRUE, n |-> p.n, w |-> p.w, fin |-> p.fin]))
=============================================================================
