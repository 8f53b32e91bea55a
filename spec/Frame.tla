-------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* Who may change what.  The world of a user consists of                   *)
(*   user      the arrays, lists and dictionaries handed to the package    *)
(*   set[k]    the settings of simulation object k                         *)
(*   res[k]    the results dictionaries simulation k has produced so far   *)
(*             (the user may keep all of them)                             *)
(* Sampling operations ("run", "cont") of simulation k append one entry to *)
(* res[k] and may resolve defaults in set[k]; every other operation        *)
(* (statistics, plots, intervals, combining, parallel set-up, export,      *)
(* display, reading files) changes nothing.  A result is a function of the *)
(* user's inputs, the settings, the seed and, for a continued run, of the  *)
(* previous result - and of nothing else (C15, C16).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sampling == {"run", "cont"}
Reads == {"stats", "gr", "plot", "pi", "prop", "comb", "par", "export", "light", "disp", "log", "util"}

(* abstract value of a result *)
Result(k, kind, user, seed, prev) == [sim |-> k, kind |-> kind, in |-> user, seed |-> seed, prev |-> prev]

FInit(sims, user) == [user |-> user, set |-> [k \in sims |-> 0], res |-> [k \in sims |-> <<>>]]
FCan(w, op, k) == IF op = "run" THEN TRUE ELSE Len(w.res[k]) > 0
Prev(w, k) == IF Len(w.res[k]) = 0 THEN <<>> ELSE << w.res[k][Len(w.res[k])] >>
FDo(w, op, k, seed) ==
  IF op \in Sampling
  THEN [w EXCEPT !.res[k] = Append(@, Result(k, op, w.user, seed, IF op = "cont" THEN Prev(w, k) ELSE <<>>)),
                 !.set[k] = 1]
  ELSE w
(* cells of the world an operation on simulation k may change; a cell is   *)
(* <<"user", name>>, <<"set", k>> or <<"res", k, number>>                  *)
FWrites(op, k) == IF op \in Sampling THEN {<<"set", k>>} ELSE {}
FCreates(op, k, n) == IF op \in Sampling THEN {<<"res", k, n + 1>>} ELSE {}

(* the history of one simulation alone, in a world of its own *)
Mine(h, k) == SelectSeq(h, LAMBDA e : e.k = k /\ e.op \in Sampling)
RECURSIVE Alone(_, _, _)
Alone(w, h, i) == IF i > Len(h) THEN w ELSE Alone(FDo(w, h[i].op, h[i].k, h[i].seed), h, i + 1)
=============================================================================
