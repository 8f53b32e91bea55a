------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* What the user declares, and the effective settings it resolves to:      *)
(* parameters (C04, C20), simulation options (C19), error model and        *)
(* observation counts (C21), initial proposal (C06).                       *)
(* Null stands for an argument that was not given.                       *)
(***************************************************************************)
EXTENDS F64, J, Integers, Sequences, FiniteSets, TLC

F0 == FInt(0)
F1 == FInt(1)
Inf == FLit("Infinity")
NaN == FLit("NaN")

MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
RECURSIVE SelIdx(_, _)
SelIdx(s, k) ==          \* increasing indices i >= k with s[i]
  IF k > Len(s) THEN <<>>
  ELSE IF s[k] THEN <<k>> \o SelIdx(s, k + 1) ELSE SelIdx(s, k + 1)
RECURSIVE SumInt(_)
SumInt(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInt(Tail(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Parameters: sequence of declarations                                    *)
(* [name, theta0, min, max, mu, sigma, sample, adapt]                      *)
Theta0(p)  == IF p.theta0 = Null THEN F1 ELSE p.theta0
PName(ps, i) == IF ps[i].name = Null THEN "$p_{" \o ToString(i - 1) \o "}$" ELSE ps[i].name
PriorMu(p) == IF FIsNaN(p.mu) THEN Theta0(p) ELSE p.mu
PriorSig(p) == IF FLe(p.sigma, F0) THEN Inf ELSE p.sigma
Sampled(ps) == SelIdx(MapSeq(ps, LAMBDA p : p.sample), 1)
NPar(ps)    == Len(Sampled(ps))
FullInit(ps) == MapSeq(ps, Theta0)
Pick(full, idx) == [j \in 1..Len(idx) |-> full[idx[j]]]
(* the full vector with the sampled entries replaced *)
Merge(full, idx, th) ==
  [i \in 1..Len(full) |-> IF \E j \in 1..Len(idx) : idx[j] = i
                          THEN th[CHOOSE j \in 1..Len(idx) : idx[j] = i] ELSE full[i]]
(* a set of declarations is refused iff some sampled one is inconsistent *)
BadLimits(p)  == ~FLe(p.min, p.max)
BadInit(p)    == FLt(Theta0(p), p.min) \/ FLt(p.max, Theta0(p))
Refused(ps)   == \E i \in 1..Len(ps) : ps[i].sample /\ (BadLimits(ps[i]) \/ BadInit(ps[i]))

(* declarations for a run that continues from the values x of the sampled  *)
(* parameters: a missing prior mean still refers to the declared value     *)
Continue(ps, x) ==
  LET idx == Sampled(ps) IN
  [i \in 1..Len(ps) |-> IF ps[i].sample
     THEN [ps[i] EXCEPT !.theta0 = x[CHOOSE j \in 1..Len(idx) : idx[j] = i], !.mu = PriorMu(ps[i])]
     ELSE ps[i]]

(* declarations and proposal covariance for a run that restarts from saved  *)
(* results: values by name for parameters sampled in both, everything else *)
(* as declared now.  saved: [names, sampled (booleans), val, Q]             *)
SavedPos(saved, n) == CHOOSE a \in 1..Len(saved.names) : saved.names[a] = n
InSaved(saved, n) == \E a \in 1..Len(saved.names) : saved.names[a] = n /\ saved.sampled[a]
Restart(ps, saved) ==
  [i \in 1..Len(ps) |-> IF InSaved(saved, PName(ps, i))
     THEN [ps[i] EXCEPT !.mu = PriorMu(ps[i]), !.theta0 = IF ps[i].sample THEN saved.val[SavedPos(saved, PName(ps, i))] ELSE @]
     ELSE ps[i]]
RestartQ(ps, saved) ==
  [i \in 1..Len(ps) |-> [j \in 1..Len(ps) |-> saved.Q[SavedPos(saved, PName(ps, i))][SavedPos(saved, PName(ps, j))]]]

Prior(mu, sig, th) ==
  FSum([j \in 1..Len(th) |-> LET r == FDiv(FSub(mu[j], th[j]), sig[j]) IN FMul(r, r)])

-----------------------------------------------------------------------------
(* Simulation options                                                      *)
MethodAdapt == [mh |-> 0, am |-> 100, dr |-> 0, dram |-> 100]
MethodTry   == [mh |-> 1, am |-> 1, dr |-> 2, dram |-> 2]

EffAdaptint(o) == IF o.adaptint = Null \/ o.method \in {"mh", "dr"}
                  THEN MethodAdapt[o.method] ELSE o.adaptint
EffNtry(o)     == IF o.ntry = Null THEN MethodTry[o.method] ELSE o.ntry
EffSavesize(o) == IF o.savesize <= 0 \/ o.savesize > o.nsimu THEN o.nsimu ELSE o.savesize
EffLastadapt(o) == IF o.lastadapt < 1 THEN o.nsimu ELSE o.lastadapt
EffPrintint(o) == IF o.printint = Null THEN Max2(100, Min2(1000, EffAdaptint(o))) ELSE o.printint
EffUpdate(o, m) == o.updatesigma \/ m.N0 # Null
EffLight(o)    == IF o.save_to_json THEN o.save_to_bin \/ o.save_to_txt ELSE o.save_lightly
EffScale(o, np) == IF o.adascale = Null \/ FLe(o.adascale, F0)
                   THEN FDiv(FLit("2.4"), FSqrt(FInt(np))) ELSE o.adascale
(* cumulative shrinking factor of try j (the first try is not shrunk) *)
RECURSIVE DrFactor(_, _)
DrFactor(drscale, j) ==
  IF j = 1 THEN F1
  ELSE FMul(DrFactor(drscale, j - 1), drscale[Min2(j - 1, Len(drscale))])

-----------------------------------------------------------------------------
(* Error model: sigma2, S20, N0, N are Null or sequences; dn the row     *)
(* counts of the data sets; ns the number of sum-of-squares components.    *)
(* Resolution yields [ok, sigma2, S20, N0, N].                             *)
Expand(s, ns) == IF Len(s) = 1 THEN [i \in 1..ns |-> s[1]] ELSE s
FitsNs(s, ns) == Len(s) \in {1, ns}

RawSigma2(m) == IF m.sigma2 # Null THEN m.sigma2
                ELSE IF m.S20 # Null /\ m.N0 # Null THEN m.S20 ELSE <<F1>>
RawN0(m)  == IF m.N0 # Null THEN m.N0 ELSE IF m.sigma2 # Null THEN <<F1>> ELSE <<F0>>
RawS20(m) == IF m.S20 # Null THEN m.S20 ELSE RawSigma2(m)
FSumSeq(s) == FSum(s)
AgreeN(un, dn) ==      \* user defined counts against the data
  \/ un = dn
  \/ Len(un) = 1 /\ Len(dn) > 1 /\ ((\A i \in 1..Len(dn) : dn[i] = un[1]) \/ un[1] = FSumSeq(dn))
  \/ Len(dn) = 1 /\ Len(un) > 1 /\ (\A i \in 1..Len(un) : un[i] = dn[1])
RawN(m, dn) == IF m.N = Null THEN dn ELSE IF Len(m.N) > Len(dn) THEN m.N ELSE dn
EffN(n, ns) == IF Len(n) = 1 THEN [i \in 1..ns |-> n[1]]
               ELSE IF ns = 1 THEN <<FSumSeq(n)>> ELSE n
OkN(m, dn, ns) == /\ m.N # Null => AgreeN(m.N, dn)
                  /\ (Len(RawN(m, dn)) = 1 \/ ns = 1 \/ Len(RawN(m, dn)) >= ns)
ModelOk(m, dn, ns) ==
  /\ OkN(m, dn, ns)
  /\ FitsNs(RawSigma2(m), ns) /\ FitsNs(RawS20(m), ns) /\ FitsNs(RawN0(m), ns)
ResolveModel(m, dn, ns) ==
  [sigma2 |-> Expand(RawSigma2(m), ns), S20 |-> Expand(RawS20(m), ns),
   N0 |-> Expand(RawN0(m), ns), N |-> EffN(RawN(m, dn), ns)]

-----------------------------------------------------------------------------
(* Initial proposal covariance of the sampled parameters                   *)
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE F0]]
SubMat(m, idx) == [i \in 1..Len(idx) |-> [j \in 1..Len(idx) |-> m[idx[i]][idx[j]]]]
Sq(a) == FMul(a, a)
DefaultVar(p) ==
  LET s2 == Sq(PriorSig(p))
      v  == IF FIsInf(s2) \/ FIsNaN(s2) THEN Sq(FMul(FAbs(Theta0(p)), FLit("0.05"))) ELSE s2
  IN IF FEq(v, F0) THEN F1 ELSE v
FullQcov(ps, qcov) ==       \* qcov: Null, [v |-> variances] or [m |-> matrix]
  IF qcov = Null THEN Diag(MapSeq(ps, DefaultVar))
  ELSE IF "v" \in DOMAIN qcov THEN Diag(qcov.v) ELSE qcov.m
InitQcov(ps, qcov) == SubMat(FullQcov(ps, qcov), Sampled(ps))

MatT(m) == [i \in 1..Len(m[1]) |-> [j \in 1..Len(m) |-> m[j][i]]]
RtR(R) == LET T == MatT(R) IN [i \in 1..Len(T) |-> [j \in 1..Len(T) |-> FDot(T[i], T[j])]]
MatScale(m, c) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> FMul(m[i][j], c)]]
VecMat(v, m) == LET T == MatT(m) IN [j \in 1..Len(T) |-> FDot(v, T[j])]
VecAdd(u, v) == [i \in 1..Len(u) |-> FAdd(u[i], v[i])]
VecSub(u, v) == [i \in 1..Len(u) |-> FSub(u[i], v[i])]
RECURSIVE FMaxAbs(_)
FMaxAbs(v) == IF v = <<>> THEN F0
              ELSE LET r == FMaxAbs(Tail(v)) h == FAbs(Head(v)) IN IF FLt(r, h) THEN h ELSE r
MatMax(m) == FMaxAbs([i \in 1..Len(m) |-> FMaxAbs(m[i])])
VecNear(u, v, tol, sc) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FNear(u[i], v[i], tol, sc)
MatNear(a, b, tol, sc) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VecNear(a[i], b[i], tol, sc)
=============================================================================
