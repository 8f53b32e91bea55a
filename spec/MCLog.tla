-------------------------------- MODULE MCLog --------------------------------
(* Log with small constants: every schedule of steps, writes, crashes and    *)
(* continued runs.  Terminal behaviours are printed as scenarios (GEN) for   *)
(* the driver: run lengths, savesizes, and where the process ends.           *)
EXTENDS Log, TLC, Json

CONSTANTS MaxN, MaxRuns, Files, Gen
VARIABLES L, hist          \* hist: the runs so far and, after a crash, its position
vars == <<L, hist>>

Eff(n, s) == IF s <= 0 \/ s > n THEN n ELSE s
Init == \E n \in 1..MaxN, s \in 0..MaxN :
          /\ s <= n + 1 /\ L = LFresh(Files, n, Eff(n, s)) /\ hist = [runs |-> << <<n, s>> >>, at |-> <<>>]
Step == LStepOk(L) /\ L' = LStep(L) /\ UNCHANGED hist
Write(f) == LWriteOk(L, f) /\ L' = LWrite(L, f) /\ UNCHANGED hist
Finish == LFinishOk(L) /\ L' = LFinish(L) /\ UNCHANGED hist
Continue == /\ L.ph = "done" /\ Len(hist.runs) < MaxRuns
            /\ \E n \in 1..MaxN, s \in 0..MaxN :
                 /\ s <= n + 1 /\ L' = LCont(L, n, Eff(n, s)) /\ hist' = [hist EXCEPT !.runs = Append(@, <<n, s>>)]
(* position of a crash: steps completed in the run, writes of the save in progress *)
Pos == LET n == hist.runs[Len(hist.runs)][1] IN
       IF L.ph = "run" THEN <<n - 1 - L.left, 0>> ELSE <<n - 1 - L.left, Cardinality(L.files \ L.todo) + 1>>
Crash == /\ L.ph \in {"run", "save", "final"} /\ (L.ph = "run" => L.left > 0)
         /\ L' = LCrash(L) /\ hist' = [hist EXCEPT !.at = Pos]
Next == Step \/ (\E f \in Files : Write(f)) \/ Finish \/ Continue \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inv == /\ LPrefix(L) /\ LLag(L) /\ LTogether(L) /\ LComplete(L)
       /\ (L.ph \in {"save", "final"} => L.seg[2] <= L.n - 1)      \* only sampled rows are written
       /\ (L.ph \in {"run", "done"} => \A f, g \in L.files : L.w[f] = L.w[g])
Ends == <>(L.ph \in {"done", "crashed"})
AppendOnly == [][\A f \in Files : \/ L'.w[f] = L.w[f] \/ (Len(L'.w[f]) = Len(L.w[f]) + 1 /\ SubSeq(L'.w[f], 1, Len(L.w[f])) = L.w[f])]_vars
(* one line per behaviour of interest *)
Emit == (Gen /\ L.ph \in {"done", "crashed"}) => PrintT("GEN " \o ToJson(hist))
=============================================================================
