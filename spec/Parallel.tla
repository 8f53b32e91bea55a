------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* A parallel simulation: chains 1..n with their starting points, a pool   *)
(* of worker processes that runs them, and directories with their results. *)
(*                                                                         *)
(* Pool.  Tasks are started in order whenever a worker is free; they may   *)
(* finish in any order.  A worker process inherits the random number       *)
(* generator of its parent and keeps it between tasks; every task draws    *)
(* from a stream of its own, so a task takes a fresh stream when it starts.*)
(* Result i is the outcome of task i; a task may fail (its chain is        *)
(* refused, or a user function raises), and then the simulation fails when *)
(* the tasks have ended: it neither waits for ever nor returns results.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- the pool ---- *)
PInit(n, w) == [n |-> n, w |-> w, next |-> 1, run |-> {}, fin |-> <<>>, gen |-> [k \in 1..w |-> 0],
                fresh |-> 1, on |-> [i \in 1..n |-> 0], stream |-> [i \in 1..n |-> 0], out |-> [i \in 1..n |-> 0], bad |-> {}]
Busy(p) == {p.on[i] : i \in p.run}
CanStart(p, k) == p.next <= p.n /\ k \in (1..p.w) \ Busy(p)
Start(p, k) == [p EXCEPT !.next = @ + 1, !.run = @ \cup {p.next}, !.on[p.next] = k,
                         !.gen[k] = p.fresh, !.fresh = @ + 1, !.stream[p.next] = p.fresh]
CanFinish(p, i) == i \in p.run
Finish(p, i) == [p EXCEPT !.run = @ \ {i}, !.fin = Append(@, i), !.out[i] = i]
Fail(p, i) == [p EXCEPT !.run = @ \ {i}, !.fin = Append(@, i), !.bad = @ \cup {i}]
Done(p) == Len(p.fin) = p.n
Outcome(p) == IF ~Done(p) THEN "running" ELSE IF p.bad # {} THEN "failed" ELSE "results"


(* ---- starting points ---- *)
(* given: rows of initial values or <<>> *)
NChains(given, nchain) == IF given = <<>> THEN nchain ELSE Len(given)
StartAt(given, i, npar) == SubSeq(given[i], 1, npar)

(* ---- directories: entries [kind, num, dir] ---- *)
(* kind "chain" stands for the name chain_<num>, anything else is foreign  *)
IsChain(e) == e.kind = "chain" /\ e.dir
ChainNums(es) == {e.num : e \in {x \in es : IsChain(x)}}
(* numbers in increasing order *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
Loaded(es) == Sorted(ChainNums(es))

(* ---- burn-in; percentages are given in halves ---- *)
Burn(nsimu, half) == (nsimu * half) \div 200
After(rows, b) == SubSeq(rows, b + 1, Len(rows))
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Combined(chains, nsimu, half) == Concat([i \in 1..Len(chains) |-> After(chains[i], Burn(nsimu[i], half))])
Labels(chains, nsimu, half) ==
  Concat([i \in 1..Len(chains) |-> [j \in 1..Len(After(chains[i], Burn(nsimu[i], half))) |-> "Chain " \o ToString(i - 1)]])
=============================================================================
