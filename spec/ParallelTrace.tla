---------------------------- MODULE ParallelTrace ----------------------------
(* Recorded parallel simulations and loaded directories against Parallel.     *)
(*  kind "setup": iv, n, refused; kind "run": in addition                     *)
(*   logs[l]   one per process-side sum of squares: th evaluations, d draws   *)
(*   res[i], disk[i], dirs[i], alone (settings of the template run serially)  *)
(*  kind "dirs": entries, exp (what was put there), loads, json, logs, combs  *)
EXTENDS Parallel, F64, J

Traces == JEnv("TRACE")
VARIABLES t, i, err
vars == <<t, i, err>>
Tr == Traces[t]
Clause(ok, props, name, r, s) == IF ok THEN {} ELSE {<<props, name, r, s>>}
P == "C17"
L == "C18"

(* ---- set-up ---- *)
Given == Tr.given # <<>>
NPar == Tr.par.npar
Inside(v, j) == ~FLt(v, Tr.par.lo[j]) /\ ~FLt(Tr.par.hi[j], v)
Legal == ~Given \/ \A k \in 1..Len(Tr.given) : \A j \in 1..NPar : Inside(Tr.given[k][j], j)
N == NChains(Tr.given, Tr.nchain)
(* drawn starting points: uniform between the limits, infinite ones        *)
(* replaced by a hundred times the size of the value                       *)
From(j) == IF FIsInf(Tr.par.lo[j]) THEN FSub(Tr.par.theta0[j], FMul(FInt(100), FAbs(Tr.par.theta0[j]))) ELSE Tr.par.lo[j]
To(j) == IF FIsInf(Tr.par.hi[j]) THEN FAdd(Tr.par.theta0[j], FMul(FInt(100), FAbs(Tr.par.theta0[j]))) ELSE Tr.par.hi[j]
Free == {j \in 1..NPar : Tr.par.sample[j] /\ FLt(From(j), To(j))}
Rel(k, j) == FDiv(FSub(Tr.iv[k][j], From(j)), FSub(To(j), From(j)))
Quarter(k, j) == FToInt(FFloor(FMul(FInt(4), Rel(k, j))))
Half(k, j) == FToInt(FFloor(FMul(FInt(2), Rel(k, j))))
SpreadErr ==
  UNION { Clause(\A k \in 1..N : ~FLt(Rel(k, j), FLit("-1e-9")) /\ ~FLt(FLit("1.000000001"), Rel(k, j)), P, "drawn initial values are between the limits used", 0, j)
          \cup Clause(N < 60 \/ \A q \in 0..3 : \E k \in 1..N : Quarter(k, j) = q, P, "drawn initial values cover the range of the parameter", 0, j)
          \cup UNION { Clause(N < 60 \/ b = j \/ \A q, r \in {0, 1} : \E k \in 1..N : Half(k, j) = q /\ Half(k, b) = r, P, "initial values of parameters are drawn independently", b, j)
                       : b \in Free }
          : j \in Free }
SetupErr ==
  IF ~Legal THEN Clause(Tr.refused, P, "initial values outside the limits are refused", 0, 0)
  ELSE IF Tr.refused THEN Clause(FALSE, P, "initial values inside the limits are accepted", 0, 0)
  ELSE Clause(Tr.n = N /\ Len(Tr.iv) = N, P, "one chain per requested chain or row of initial values", 0, Tr.n)
       \cup (IF Len(Tr.iv) # N THEN {} ELSE
             UNION { IF Given THEN Clause(Tr.iv[k] = StartAt(Tr.given, k, NPar), P, "chain i starts at row i of the initial values", k, 0)
                     ELSE UNION { Clause(Inside(Tr.iv[k][j], j), P, "drawn initial values are inside the limits", k, j)
                                  \cup Clause(Tr.par.sample[j] \/ Tr.iv[k][j] = Tr.par.theta0[j], P, "parameters that are not sampled keep their value", k, j)
                                  : j \in 1..NPar } : k \in 1..N }
             \cup Clause(Given \/ \A a, b \in 1..N : a # b => Tr.iv[a] # Tr.iv[b] \/ \A j \in 1..NPar : ~Tr.par.sample[j] \/ FEq(Tr.par.lo[j], Tr.par.hi[j]),
                         P, "drawn initial values differ between chains", 0, 0)
             \cup (IF Given THEN {} ELSE SpreadErr))

(* ---- runs ---- *)
Begin(k) == IF Tr.saved # Null THEN [j \in 1..NPar |-> IF Tr.par.sample[j] THEN Tr.saved[k][j] ELSE Tr.iv[k][j]] ELSE Tr.iv[k]
Proj(th) == LET s == SelectSeq([j \in 1..NPar |-> j], LAMBDA j : Tr.par.sample[j]) IN [j \in 1..Len(s) |-> th[s[j]]]
Of(k) == {l \in 1..Len(Tr.logs) : Len(Tr.logs[l].th) > 0 /\ Tr.logs[l].th[1] = Begin(k)}
DrawSet(l) == {Tr.logs[l].d[x] : x \in 1..Len(Tr.logs[l].d)}
(* the output of the custom sampler is the number of steps made so far *)
CustomOk(cu) == IF ~Tr.cust THEN \A x \in 1..Len(cu) : cu[x] = <<>>
                ELSE /\ \A x \in 2..Len(cu) : Len(cu[x]) = 1 /\ cu[x][1] \in 0..(Tr.nsimu - 2)
                     /\ \A x \in 3..Len(cu) : cu[x - 1][1] <= cu[x][1]
ChainErr(k) ==
  LET r == Tr.res[k] c == r.chain IN
  IF Cardinality(Of(k)) # 1 THEN Clause(FALSE, P, "every chain runs once, from its own starting point", k, Cardinality(Of(k)))
  ELSE
  LET l == CHOOSE l \in Of(k) : TRUE
      cand == {Proj(Tr.logs[l].th[x]) : x \in 1..Len(Tr.logs[l].th)} IN
  Clause(Tr.logs[l].data = Tr.data, P, "every chain is run with the data of the template", k, 0)
  \cup Clause(CustomOk(Tr.logs[l].cu), P, "every chain has the custom samplers of the template, set up for itself", k, 0)
  \cup Clause(c # <<>> /\ c[1] = Proj(Begin(k)), P, "the result of chain i starts at its starting point", k, 0)
  \cup Clause(\A x \in 2..Len(c) : c[x] = c[x - 1] \/ c[x] \in cand, P, "the result of chain i consists of states of chain i", k, 0)
  \cup Clause(Len(c) = Tr.nsimu, P, "every chain has the requested length", k, Len(c))
  \cup Clause(Proj(r.theta) = c[Len(c)], P, "the final sample of result i is that of chain i", k, 0)
  \cup UNION { Clause(r.set[x] = Tr.alone[x], P, "settings of every chain are those of the template: " \o Tr.alone[x][1], k, 0)
               : x \in 1..(IF Len(r.set) = Len(Tr.alone) THEN Len(r.set) ELSE 0) }
  \cup Clause(Len(r.set) = Len(Tr.alone), P, "settings of every chain are those of the template", k, 0)
DiskErr(k) ==
  LET e == Tr.disk[k] c == Tr.res[k].chain w == Tr.want IN
  Clause(e.dir /\ Tr.dirs[k] = "chain_" \o ToString(k - 1), P, "chain i has the directory chain_i", k, 0)
  \cup Clause(IF w.bin THEN e.bin = c ELSE e.bin = Null, P, "binary log files in the directory of chain i hold chain i", k, 0)
  \cup Clause(IF w.txt THEN e.txt = c ELSE e.txt = Null, P, "text log files in the directory of chain i hold chain i", k, 0)
  \cup Clause(IF w.json THEN e.json # Null /\ e.json.theta = Tr.res[k].theta /\ (IF w.light THEN e.json.chain = Null ELSE e.json.chain = c)
              ELSE e.json = Null, P, "the results file of chain i holds the results of chain i", k, 0)
ShareErr == UNION { Clause(\A b \in 1..(a - 1) : Cardinality(DrawSet(a) \cap DrawSet(b)) <= 1, P, "no two chains share random numbers", a, 0) : a \in 1..Len(Tr.logs) }
            \cup Clause(Len(Tr.logs) = N, P, "every chain runs in a simulation of its own", 0, Len(Tr.logs))
ShowErr == IF ~Tr.show THEN {} ELSE
           Clause(Tr.disp = [k \in 1..N |-> <<k - 1, "chain_" \o ToString(k - 1)>>], P, "statistics are displayed for every chain under its number", 0, 0)
LoadErr == UNION { LET p == Tr.load[x] IN
                   Clause(Len(p) = N, L, "one result per chain is loaded", x, Len(p))
                   \cup (IF Len(p) # N THEN {} ELSE
                         UNION { Clause(p[k].chain = Tr.res[k].chain /\ p[k].ss = Tr.res[k].ss /\ p[k].nsimu = Tr.nsimu, L, "loaded result i is the result of chain i", x, k) : k \in 1..N })
                   : x \in 1..Len(Tr.load) }
RunErr == IF ~Legal \/ Tr.refused \/ Tr.n # N \/ Len(Tr.iv) # N THEN {} ELSE
          UNION { ChainErr(k) \cup DiskErr(k) : k \in 1..N } \cup ShareErr \cup ShowErr \cup LoadErr

(* ---- directories ---- *)
Entries == {Tr.entries[x] : x \in 1..Len(Tr.entries)}
Want == Loaded(Entries)
OneLoad(x) ==
  LET p == Tr.loads[x] IN
  IF [k \in 1..Len(p) |-> p[k].tag] # Want THEN Clause(FALSE, L, "one result per chain directory, in order of chain number", x, Len(p))
  ELSE UNION { LET e == Tr.exp[k] IN
               Clause(p[k].chain = e.chain /\ p[k].sschain = e.sschain /\ p[k].s2chain = e.s2chain, L, "every result has its own chains", x, k)
               \cup Clause(p[k].nsimu = e.n /\ p[k].theta = e.theta /\ p[k].label = "run", L, "every result has the content of its results file", x, k)
               : k \in 1..Len(p) }
CombErr(x) ==
  LET c == Tr.combs[x] u == Tr.use
      ch == [k \in 1..Len(u) |-> u[k].chain]
      ns == [k \in 1..Len(u) |-> u[k].nsimu] IN
  Clause(c.rows = Combined(ch, ns, c.half), L, "the combined chain holds the rows after burn-in of all chains in order", x, c.half)
  \cup Clause(c.index = Labels(ch, ns, c.half), L, "every row of the combined chain is labelled with its chain", x, c.half)
  \cup Clause(c.list = [k \in 1..Len(u) |-> After(ch[k], Burn(ns[k], c.half))], L, "the list of chains holds the rows after burn-in", x, c.half)
DirsErr ==
  UNION { OneLoad(x) : x \in 1..Len(Tr.loads) }
  \cup Clause(Tr.nums = Want, "machinery", "the driver and the specification agree on the chain directories", 0, 0)
  \cup Clause(Tr.json = Want, L, "results files are read in order of chain number", 0, 0)
  \cup (IF Len(Tr.logs) # Len(Want) THEN Clause(FALSE, L, "log files of every chain directory are read", 0, 0)
        ELSE UNION { LET e == Tr.exp[k] g == Tr.logs[k] IN
                     Clause(g.chain = e.log_chain /\ g.sschain = e.log_sschain /\ g.s2chain = e.log_s2chain /\ g.covchain = e.log_covchain, L,
                            "log files are read in order of chain number", k, 0) : k \in 1..Len(Want) })
  \cup UNION { CombErr(x) : x \in 1..Len(Tr.combs) }
  \cup Clause(Tr.same, L, "combining chains leaves them unchanged", 0, 0)

Init == t \in 1..Len(Traces) /\ i = 0 /\ err = {}
Next == /\ i <= 1 /\ i' = i + 1 /\ UNCHANGED t
        /\ err' = err \cup (IF Tr.kind = "dirs" THEN (IF i = 0 THEN DirsErr ELSE {})
                            ELSE IF i = 0 THEN SetupErr ELSE IF Tr.kind = "fail" THEN Clause(Tr.failed, P, "a simulation with a chain that failed is reported as failed", 0, 0) ELSE IF Tr.kind = "run" THEN RunErr ELSE {})
        /\ i = 1 => PrintT("VERDICT " \o ToString(t) \o " " \o ToString(err'))
Spec == Init /\ [][Next]_vars
===============================================================================
