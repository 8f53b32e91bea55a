------------------------------ MODULE MCSession ------------------------------
(* All sessions up to a bounded number of operations; printed for the driver. *)
EXTENDS Session, TLC, Json, FiniteSets
CONSTANTS MaxLen, Gen, Ns
VARIABLES s, hist
vars == <<s, hist>>
Init == s = SInit /\ hist = <<>>
Quiet(o) == o.op # "run"
Do(o) == /\ Len(hist) < MaxLen
         /\ (Len(hist) = 0 => o.op = "def" \/ o.op = "run")
         /\ Fits(s, o)
         /\ (Len(hist) > 0 /\ Quiet(o)) => hist[Len(hist)].op # o.op              \* a repeated declaration replaces the first
         /\ (Len(hist) > 1 /\ Quiet(o)) => hist[Len(hist) - 1].op # o.op \/ ~Quiet(hist[Len(hist)])
         /\ (o.op = "def" => o.fn # s.fn \/ o.n0 # s.n0 \/ hist = <<>>)
         /\ (o.op = "opt" => o.n # s.n \/ o.upd # s.upd)
         /\ (o.op = "data" => Len(s.data) < 3)
         /\ s' = SDo(s, o) /\ hist' = Append(hist, o)
Next == \/ \E f \in Fns, b \in BOOLEAN : (b => f \in {"sos", "model"}) /\ Do([op |-> "def", fn |-> f, n0 |-> b])
        \/ \E n \in Ns, b \in BOOLEAN : Do([op |-> "opt", n |-> n, upd |-> b])
        \/ \E n \in {4, 6} : Do([op |-> "data", n |-> n])
        \/ \E c \in BOOLEAN, p \in {0, 1, 3} : Do([op |-> "run", cont |-> c, stop |-> p, id |-> Len(hist) + 1])
Spec == Init /\ [][Next]_vars
(* completed rows never get lost or replaced by anything but a new fresh run *)
Kept == [][s.last = s'.last
           \/ (Len(s'.last) > Len(s.last) /\ SubSeq(s'.last, 1, Len(s.last)) = s.last)
           \/ Len(s'.last) = 1]_vars
Last == hist[Len(hist)]
FailedChangesNothing == [][hist' # hist /\ hist'[Len(hist')].op = "run" /\ Outcome(s, hist'[Len(hist')]) # "ok" => s' = s]_vars
RunsHoldRows == s.last # <<>> => \E k \in 1..Len(hist) : hist[k].op = "run" /\ hist[k].stop = 0 /\ hist[k].id = s.last[1].id /\ ~hist[k].cont
Emit == (Gen /\ hist # <<>> /\ Last.op = "run" /\ (Len(hist) = 2 \/ (Len(hist) = MaxLen /\ s.last # <<>>))) => PrintT("GEN " \o ToJson(hist))
===============================================================================
