--------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* Log files of a simulation.  Rows of the chains are numbered from 0; a   *)
(* segment is <<first, last>>.  A log state L is a record                  *)
(*   n     rows sampled so far            last  first row not yet saved    *)
(*   cnt   steps since the last save      size  savesize in effect         *)
(*   left  steps left in this run         files set of files               *)
(*   w     segments written, per file     seg, todo  save in progress      *)
(*   ph    "run", "save", "final", "done", "crashed"                       *)
(* Every write of one segment to one file is atomic; the order in which    *)
(* the files of a save are written is not prescribed.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LFresh(files, nsimu, size) ==
  [n |-> 1, cnt |-> 0, last |-> 0, size |-> size, left |-> nsimu - 1, files |-> files,
   w |-> [f \in files |-> <<>>], seg |-> <<>>, todo |-> {}, ph |-> "run"]
(* a continued run repeats no row: everything before was saved *)
LCont(L, nsimu, size) ==
  [L EXCEPT !.cnt = 0, !.last = L.n, !.size = size, !.left = nsimu - 1, !.ph = "run"]

LStepOk(L) == L.ph = "run" /\ L.left > 0
LStep(L) ==
  LET full == L.cnt + 1 = L.size IN
  [L EXCEPT !.n = @ + 1, !.cnt = @ + 1, !.left = @ - 1,
            !.ph = IF full THEN "save" ELSE "run",
            !.seg = IF full THEN <<L.last, L.last + L.size - 1>> ELSE <<>>,
            !.todo = IF full THEN L.files ELSE {}]
LWriteOk(L, f) == L.ph \in {"save", "final"} /\ f \in L.todo
LWrite(L, f) ==
  LET rest == L.todo \ {f} IN
  [L EXCEPT !.w[f] = Append(@, L.seg), !.todo = rest,
            !.last = IF rest = {} THEN L.seg[2] + 1 ELSE @,
            !.cnt = IF rest = {} THEN 0 ELSE @,
            !.ph = IF rest # {} THEN @ ELSE IF @ = "save" THEN "run" ELSE "done"]
LFinishOk(L) == L.ph = "run" /\ L.left = 0
LFinish(L) ==
  IF L.last <= L.n - 1 /\ L.files # {}
  THEN [L EXCEPT !.ph = "final", !.seg = <<L.last, L.n - 1>>, !.todo = L.files]
  ELSE [L EXCEPT !.ph = "done"]
LCrash(L) == [L EXCEPT !.ph = "crashed"]

(* all writes of the save in progress *)
LSaveAll(L) ==
  IF L.ph \notin {"save", "final"} THEN L
  ELSE [L EXCEPT !.w = [f \in L.files |-> IF f \in L.todo THEN Append(L.w[f], L.seg) ELSE L.w[f]], !.todo = {},
                 !.last = L.seg[2] + 1, !.cnt = 0, !.ph = IF L.ph = "save" THEN "run" ELSE "done"]
(* what a file may hold when the process ends while a save is in progress *)
LMayHold(L, f) == {L.w[f]} \cup (IF f \in L.todo THEN {Append(L.w[f], L.seg)} ELSE {})

-----------------------------------------------------------------------------
(* what a user relies on *)
Covered(s) == IF s = <<>> THEN 0 ELSE s[Len(s)][2] + 1
NoGaps(s) == /\ \A k \in 1..Len(s) : s[k][1] <= s[k][2]
             /\ \A k \in 1..(Len(s) - 1) : s[k + 1][1] = s[k][2] + 1
             /\ (s # <<>> => s[1][1] = 0)
LPrefix(L) == \A f \in L.files : NoGaps(L.w[f]) /\ Covered(L.w[f]) <= L.n
LLag(L) == L.n > 0 => \A f \in L.files : L.n - Covered(L.w[f]) <= L.size + (IF L.ph \in {"save", "crashed"} THEN 1 ELSE 0)
LTogether(L) == \A f, g \in L.files : Len(L.w[f]) - Len(L.w[g]) \in {-1, 0, 1}
LComplete(L) == L.ph = "done" => \A f \in L.files : Covered(L.w[f]) = L.n
=============================================================================
