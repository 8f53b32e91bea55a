------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The life of one simulation object: the user declares functions and      *)
(* options, adds data, starts runs afresh or continues the previous one; a *)
(* run may be refused (no function, settings that do not fit, nothing to   *)
(* continue) or be interrupted by an exception of the user's function.     *)
(*                                                                         *)
(* A session is [fn, n0, n, upd, data, last]:                              *)
(*   fn    what the user declared: "sos", "model", "both", "none" or "bad" *)
(*         (a sum-of-squares function with an error variance of the wrong  *)
(*         length)                                                         *)
(*   n0    the declaration holds N0 (which turns the update of the error   *)
(*         variance on, C19, as long as this declaration is in force)      *)
(*   n     number of samples of the next run                               *)
(*   upd   the options ask for updates of the error variance               *)
(*   data  number of observations of every data set                        *)
(*   last  the completed result the session holds: <<>> or a sequence of   *)
(*         segments [id, rows, comps], first the fresh run, then           *)
(*         continuations                                                   *)
(* Only completed runs change last (C09); a fresh run is a function of the *)
(* declarations, the data and the seed, not of anything that happened      *)
(* before (C16).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fns == {"sos", "model", "both", "none", "bad"}
SInit == [fn |-> "none", n0 |-> FALSE, n |-> 4, upd |-> FALSE, data |-> <<6>>, last |-> <<>>]
Outcome(s, o) == IF o.cont /\ s.last = <<>> THEN "refused"
                 ELSE IF s.fn = "none" THEN "refused"
                 ELSE IF o.stop = 1 THEN "stopped"           \* at the evaluation of the initial values
                 ELSE IF s.fn = "bad" THEN "refused"
                 ELSE IF o.stop > 1 THEN "stopped"
                 ELSE "ok"
Used(s) == IF s.fn = "model" THEN "model" ELSE "sos"          \* a sum-of-squares function takes precedence (C22)
Comps(s) == IF Used(s) = "model" THEN Len(s.data) ELSE 1      \* components of the sum of squares
Updates(s) == s.upd \/ s.n0
RECURSIVE Total(_)
Total(d) == IF d = <<>> THEN 0 ELSE Head(d) + Total(Tail(d))
Obs(s) == IF Comps(s) = 1 THEN <<Total(s.data)>> ELSE s.data  \* observations per component (C21)
RECURSIVE RowsOf(_)
RowsOf(l) == IF l = <<>> THEN 0 ELSE Head(l).rows + RowsOf(Tail(l))
(* continuing needs as many components as before *)
Fits(s, o) == o.op = "run" /\ o.cont /\ s.last # <<>> /\ s.fn \notin {"none", "bad"} => Comps(s) = s.last[1].comps
SDo(s, o) ==
  IF o.op = "def" THEN [s EXCEPT !.fn = o.fn, !.n0 = o.n0]
  ELSE IF o.op = "opt" THEN [s EXCEPT !.n = o.n, !.upd = o.upd]
  ELSE IF o.op = "data" THEN [s EXCEPT !.data = Append(@, o.n)]
  ELSE IF Outcome(s, o) # "ok" THEN s
  ELSE IF o.cont THEN [s EXCEPT !.last = Append(@, [id |-> o.id, rows |-> s.n - 1, comps |-> Comps(s)])]
  ELSE [s EXCEPT !.last = <<[id |-> o.id, rows |-> s.n, comps |-> Comps(s)]>>]
===============================================================================
