----------------------------- MODULE SessionTrace -----------------------------
(* Sessions replayed into the real code, against Session.  An event holds the *)
(* operation and, for runs, the outcome, the chains of the results object     *)
(* afterwards, the points the user's functions were called with and how often *)
(* each function was called.                                                  *)
EXTENDS Session, J, F64, TLC

Traces == JEnv("TRACE")
VARIABLES t, i, s, res, first, err
vars == <<t, i, s, res, first, err>>
Tr == Traces[t]
Clause(ok, props, name) == IF ok THEN {} ELSE {<<props, name, i + 1, 0>>}
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
(* every appended row is an evaluated point or repeats the row before it *)
RowsOk(c, from, pts) == \A k \in from..Len(c) : (k > 1 /\ c[k] = c[k - 1]) \/ \E p \in 1..Len(pts) : pts[p] = c[k]
Cyclic(q, m) == q # <<>> /\ q[1] = 1 /\ q[Len(q)] = m /\ \A k \in 1..Len(q) - 1 : q[k + 1] = IF q[k] = m THEN 1 ELSE q[k] + 1
Same(a, b) == a.chain = b.chain /\ a.ss = b.ss /\ a.s2 = b.s2

RunErr(e) ==
  LET o == e.o  x == Outcome(s, o)  r == e.res
      was == IF res = <<>> THEN 0 ELSE Len(res[1].chain)
      key == <<s.n, e.seed, Updates(s), s.n0, s.data, Used(s)>>
      pr == SelectSeq(first, LAMBDA f : f.key = key) IN
  Clause(e.out = x, IF o.cont /\ s.last = <<>> THEN "C09" ELSE IF s.fn = "none" THEN "C22" ELSE IF s.fn = "bad" THEN "C21" ELSE "C09 C16",
         "a run is refused exactly if nothing can be sampled or continued; exceptions of the user's function are passed on (" \o x \o ")")
  \cup (IF e.out # "ok" \/ x # "ok"
        THEN Clause(IF res = <<>> THEN r = Null \/ e.out = "ok" ELSE e.out = "ok" \/ (r # Null /\ Same(r, res[1])), "C09 C16", "a refused or interrupted run leaves the previous results as they were")
        ELSE Clause(Len(r.chain) = RowsOf(SDo(s, o).last) /\ Len(r.ss) = Len(r.chain) /\ (r.s2 = Null \/ Len(r.s2) = Len(r.chain)), "C09 C08", "number of rows")
             \cup Clause(IF Used(s) = "model" THEN e.nsos = 0 /\ e.nmod > 0 ELSE e.nmod = 0 /\ e.nsos > 0, "C22", "the declared function is evaluated, the sum-of-squares function first")
             \cup Clause(Used(s) # "model" \/ Cyclic(e.sets, Len(s.data)), "C22", "the model is evaluated for every data set, in order")
             \cup Clause(\A k \in 1..Len(r.ss) : Len(r.ss[k]) = Comps(s), "C22 C08", "one sum of squares per component")
             \cup Clause(r.N = Obs(s), "C21", "number of observations per component")
             \cup Clause((r.s2 = Null) = ~Updates(s), "C07 C19", "there is a chain of error variances exactly if they are updated")
             \cup (IF o.cont
                   THEN Clause(Prefix(res[1].chain, r.chain) /\ Prefix(res[1].ss, r.ss) /\ (r.s2 = Null \/ res[1].s2 = Null \/ Prefix(res[1].s2, r.s2)), "C09", "existing rows are kept")
                        \cup Clause(e.pts # <<>> /\ e.pts[1] = res[1].chain[was], "C09", "a continued run starts from the last sample of the completed run")
                        \cup Clause(RowsOk(r.chain, was + 1, e.pts), "C09 C01", "appended rows were evaluated in this run")
                   ELSE Clause(r.chain # <<>> /\ r.chain[1] = Tr.theta0, "C20 C16", "a fresh run starts at the declared initial values, whatever was run before")
                        \cup Clause(RowsOk(r.chain, 2, e.pts), "C09 C01", "rows were evaluated in this run")
                        \cup Clause(pr = <<>> \/ Same(pr[1].r, r), "C16 C15", "fresh runs with the same seed and declarations are equal, whatever was run before")))

Step ==
  /\ i < Len(Tr.ev)
  /\ LET e == Tr.ev[i + 1]  o == e.o IN
       /\ s' = SDo(s, o)
       /\ err' = err \cup (IF o.op = "run" THEN RunErr(e) ELSE {})
       /\ res' = IF o.op = "run" /\ e.out = "ok" /\ e.res # Null THEN <<e.res>> ELSE res
       /\ first' = IF o.op = "run" /\ ~o.cont /\ e.out = "ok" /\ Outcome(s, o) = "ok" THEN Append(first, [key |-> <<s.n, e.seed, Updates(s), s.n0, s.data, Used(s)>>, r |-> e.res]) ELSE first
  /\ i' = i + 1 /\ UNCHANGED t
Init == t \in 1..Len(Traces) /\ i = 0 /\ s = SInit /\ res = <<>> /\ first = <<>> /\ err = {}
Next == Step \/ (i = Len(Tr.ev) /\ i' = i + 1 /\ UNCHANGED <<t, s, res, first, err>> /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(err)))
Spec == Init /\ [][Next]_vars
===============================================================================
