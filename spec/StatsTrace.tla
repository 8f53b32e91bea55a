------------------------------ MODULE StatsTrace ------------------------------
(* Statistics reported by the code against Stats.  Kind "chain": returned    *)
(* dictionary, printed table and acceptance summary of chainstats; kind "gr":*)
(* Gelman-Rubin diagnostic of several chains.  Position i is a parameter.    *)
EXTENDS Stats, J

Traces == JEnv("TRACE")
VARIABLES t, i, err
vars == <<t, i, err>>
Tr == Traces[t]
Clause(ok, props, name, r, s) == IF ok THEN {} ELSE {<<props, name, r, s>>}
Tol == FLit("1e-7")
Zero == FInt(0)
Near(a, b, sc) == FNear(a, b, Tol, sc)
(* a number printed with two decimals or three digits *)
Shown(a, b) == FNear(a, b, FLit("0.0051"), FInt(1))
Npar == IF Tr.kind = "chain" THEN Len(Tr.rows[1]) ELSE Len(Tr.chains[1][1])

(* ------------------------------------------------------------ chainstats *)
ChainErr(j) ==
  LET x == Col(Tr.rows, j) n == Len(x) sc == Scale(x) s == Tr.stats IN
  Clause(Near(s.mean[j], Mean(x), sc), "C24", "the mean is that of the column", 0, j)
  \cup Clause(Near(s.std[j], Std(x), sc), "C24", "the standard deviation is the population standard deviation of the column", 0, j)
  \cup Clause(Near(s.bmstd[j], BatchStd(x, BatchSize(n)), sc), "C24", "the batch-means standard deviation follows its definition", 0, j)
  \cup Clause(Near(s.mcerr[j], MCError(x), FDiv(sc, FSqrt(FInt(n)))), "C24", "the Monte Carlo error is the batch-means standard deviation over the root of the length", 0, j)
  \cup UNION { Clause(Near(Tr.bm[k].s[j], BatchStd(x, Tr.bm[k].b), sc), "C24", "the batch-means standard deviation for a given batch size follows its definition", k, j) : k \in 1..Len(Tr.bm) }
  \cup (IF Tr.const[j] THEN {} ELSE
        LET z == GewekeZ(x, GewekeA(n), GewekeB(n)) ia == IactOf(x) IN
        Clause(Near(s.z[j], z, FInt(1)), "C24", "the Geweke score compares the first tenth with the last half", 0, j)
        \cup Clause(Near(s.p[j], GewekeP(s.z[j]), FInt(1)), "C24", "the Geweke value is the two-sided normal probability of the score", 0, j)
        \cup UNION { LET g == Tr.gw[k]
                         na == FToInt(FFloor(FMul(g.a, FInt(n)))) nb == n - FToInt(FFloor(FMul(g.b, FInt(n)))) IN
                     Clause(Near(g.z[j], GewekeZ(x, na, nb), FInt(1)) /\ Near(g.p[j], GewekeP(g.z[j]), FInt(1)), "C24", "the Geweke score compares the requested parts", k, j) : k \in 1..Len(Tr.gw) }
        \cup (IF FLt(ia.last, Tol) THEN {}          \* sign of a sum within rounding
              ELSE Clause(Near(s.tau[j], ia.tau, FInt(1)) /\ FEq(s.m[j], FInt(ia.m)), "C24", "the integrated autocorrelation time is Sokal's estimate", 0, j)))
  \cup LET r == Tr.table[j] IN
       Clause(Len(Tr.table) = Npar /\ r.name = Names(Tr.names, Npar)[j], "C24", "statistics are printed under the name of the parameter", 0, j)
       \cup Clause(/\ Shown(r.v[1], s.mean[j]) /\ Shown(r.v[2], s.std[j]) /\ Shown(r.v[3], s.mcerr[j])
                   /\ Shown(r.v[4], s.tau[j]) /\ Shown(r.v[5], s.p[j]), "C24", "the printed statistics are those returned", 0, j)
Pct(a, n) == FDiv(FMul(FInt(100), FInt(a)), FInt(n))
AccErr ==
  LET n == Len(Tr.rows) u == Cardinality(Distinct(Col(Tr.rows, 1))) a == Tr.acc IN
  Clause(a.chain[1] = u /\ a.chain[2] = n /\ FNear(a.pct, Pct(u, n), FLit("0.0051"), FInt(1)), "C24", "the acceptance of the chain counts its distinct rows", 0, 0)
  \cup (IF Tr.iacce = Null THEN Clause(a.res = Null, "C24", "no acceptance of results is reported without results", 0, 0)
        ELSE LET tot == Sum(Tr.iacce) IN
             Clause(a.res # Null /\ a.res = <<tot, Tr.nsimu>> /\ Len(a.stages) = Len(Tr.iacce), "C24", "the net acceptance of the results is that of all stages", 0, 0)
             \cup (IF a.res = Null \/ Len(a.stages) # Len(Tr.iacce) THEN {} ELSE
                   UNION { Clause(FNear(a.stages[k], Pct(Tr.iacce[k], Tr.nsimu), FLit("0.0051"), FInt(1)), "C24", "the acceptance of a stage is that of the results", 0, k) : k \in 1..Len(Tr.iacce) }))
(* ---------------------------------------------------------- Gelman-Rubin *)
GrErr(j) ==
  LET x == [c \in 1..Len(Tr.chains) |-> Col(Tr.chains[c], j)]
      p == Psrf(x) o == Tr.out[j] sc2 == FMul(Scale(x[1]), Scale(x[1])) IN
  Clause(o.name = Tr.gnames[j], "C24", "the diagnostic is reported under the name of the parameter", 0, j)
  \cup Clause(Near(o.B, p.B, sc2), "C24", "B is the between-chain variance", 0, j)
  \cup Clause(Near(o.W, p.W, sc2), "C24", "W is the mean within-chain variance", 0, j)
  \cup Clause(Near(o.V, p.V, sc2), "C24", "V is the mixture variance", 0, j)
  \cup Clause(Near(o.R, p.R, Zero), "C24", "R is the potential scale reduction factor", 0, j)
  \cup Clause(FNear(o.neff, p.neff, FLit("1e-6"), Zero), "C24", "neff is the effective sample size, at most the total", 0, j)

Step(j) == IF Tr.kind = "chain" THEN (IF j = 0 THEN AccErr ELSE ChainErr(j)) ELSE
           (IF j = 0 THEN Clause(Len(Tr.out) = Npar, "C24", "the diagnostic is reported for every parameter", 0, 0)
            ELSE IF j > Len(Tr.out) THEN {} ELSE GrErr(j))
Init == t \in 1..Len(Traces) /\ i = -1 /\ err = {}
Next == /\ i < Npar /\ i' = i + 1 /\ UNCHANGED t
        /\ err' = err \cup Step(i + 1)
        /\ i' = Npar => PrintT("VERDICT " \o ToString(t) \o " " \o ToString(err'))
Spec == Init /\ [][Next]_vars
===============================================================================
