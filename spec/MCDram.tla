------------------------------- MODULE MCDram -------------------------------
(* The sampler with small menus of random numbers: every sequence of normal *)
(* and uniform draws, for several configurations.  Values are multiples of  *)
(* 1/4 (proposals, limits) and 1/64 (uniforms).  Complete behaviours are    *)
(* printed as scenarios (GEN): the driver scripts the draws of the real     *)
(* code with them.                                                          *)
EXTENDS Dram, Json

CONSTANTS Steps, Deep, Gen
VARIABLES cf, st, hist
vars == <<cf, st, hist>>

No == 9999
Conf(np, ntry, lo, hi, ad, burn, w, hole, n) ==
  [np |-> np, ntry |-> ntry, lo |-> lo, hi |-> hi, ad |-> ad, burn |-> burn, w |-> w, hole |-> hole, n |-> n]
Small == { Conf(1, 1, No, No, 0, 0, 2, No, Steps + 2), Conf(1, 1, -3, 2, 1, 2, 2, No, Steps + 2),
           Conf(1, 2, No, No, 2, 0, 1, No, Steps + 1), Conf(1, 2, 0, 3, 0, 0, 6, No, Steps + 1),
           Conf(1, 2, -5, 1, 1, 2, 1, No, Steps + 1), Conf(1, 2, No, No, 1, 0, 1, 2, Steps + 1),
           Conf(1, 3, No, No, 0, 0, 3, No, Steps), Conf(1, 3, -2, 5, 0, 0, 1, 3, Steps),
           Conf(2, 2, -2, 5, 0, 0, 1, No, Steps) }
Large == { Conf(1, 4, No, No, 0, 0, 3, No, 2), Conf(1, 4, -2, 3, 0, 0, 2, 2, 2), Conf(2, 2, No, No, 1, 0, 1, No, Steps),
           Conf(2, 3, -3, 3, 0, 0, 2, No, 2), Conf(1, 2, -1, No, 1, 3, 5, No, Steps + 2) }
Confs == IF Deep THEN Small \cup Large ELSE Small
Zs(c) == IF c.np = 2 THEN {-3, 2} ELSE {-6, 2, 4}
Us == {1, 62}

Qr(n) == FDiv(FInt(n), FInt(4))
Lim(n, d) == IF n = No THEN d ELSE Qr(n)
Vec(c, v) == [j \in 1..c.np |-> v]
(* the same data the driver turns into a scenario *)
Centre(c) == Vec(c, FLit("0.25"))
SS(c, th) ==
  IF c.hole # No /\ FLt(Qr(c.hole), th[1]) THEN <<NaN>>
  ELSE <<FSum([j \in 1..c.np |-> FMul(FInt(c.w), Sq(FSub(th[j], Centre(c)[j])))])>>
Cfg(c) ==
  [nsimu |-> c.n, ntry |-> c.ntry, adaptint |-> c.ad, lastadapt |-> c.n, burnintime |-> c.burn, burnin_scale |-> FInt(10),
   drscale |-> <<FInt(2), FInt(2)>>, rdr |-> Null, qcov_adjust |-> FLit("1e-8"),
   scale |-> FDiv(FLit("2.4"), FSqrt(FInt(c.np))), initw |-> Null, qcov |-> Diag(Vec(c, F1)), noadapt |-> Vec(c, FALSE),
   idx |-> [j \in 1..c.np |-> j], full |-> Vec(c, F0),
   lo |-> Vec(c, Lim(c.lo, FLit("-Infinity"))), hi |-> Vec(c, Lim(c.hi, Inf)), mu |-> Vec(c, F0), sig |-> Vec(c, Inf),
   updatesigma |-> FALSE, N |-> <<F1>>, N0 |-> <<F0>>, S20 |-> <<F1>>, sigma2 |-> <<F1>>]
C == Cfg(cf)
Stage == Len(st.path)

Init == \E c \in Confs :
  /\ cf = c
  /\ LET k == Cfg(c) x == k.full IN st = [StartState(k, x, SS(c, x), F0, <<F1>>, k.qcov, <<>>) EXCEPT !.seen = "none"]
  /\ hist = [z |-> <<>>, u |-> <<>>, rows |-> <<Cfg(c).full>>]

Begin == st.ph = "next" /\ st' = Step0(st) /\ UNCHANGED <<cf, hist>>
Try ==
  /\ st.ph = "try"
  /\ \E z \in [1..cf.np -> Zs(cf)] :
       LET cand == Candidate(C, st, Stage, [j \in 1..cf.np |-> Qr(z[j])])
           in   == Inside(C, cand)
           pt   == Point(cand, IF in THEN SS(cf, cand) ELSE <<>>, F0, in, st.s2)
           P    == Append(st.path, pt)
           a    == Alpha(Factors(C, st, Stage), P)
           h    == [hist EXCEPT !.z = @ \o z]
       IN IF ~in \/ (Stage > 1 /\ FEq(a, F1))
          THEN st' = DoTry(C, st, pt, in) /\ hist' = h
          ELSE \E u \in Us : /\ st' = DoTry(C, st, pt, FLt(FDiv(FInt(u), FInt(64)), a))
                             /\ hist' = [h EXCEPT !.u = Append(@, u)]
  /\ UNCHANGED cf
Store == st.ph = "store" /\ st' = DoStore(C, st) /\ hist' = [hist EXCEPT !.rows = Append(@, st'.x)] /\ UNCHANGED cf
Adapt == st.ph = "adapt" /\ st' = DoAdapt(C, st, AdaptR(C, st)) /\ UNCHANGED <<cf, hist>>
Var == st.ph = "var" /\ st' = DoVar(C, st, st.s2) /\ UNCHANGED <<cf, hist>>
(* the only state without a next step is the end of the run (deadlock is an error) *)
Done == st.ph = "done" /\ UNCHANGED vars
Next == Begin \/ Try \/ Store \/ Adapt \/ Var \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C02 *)
Limits == /\ Inside(C, st.x)
          /\ \A k \in 1..Len(hist.rows) : Inside(C, hist.rows[k])
(* a sample always has a defined posterior *)
Defined == ~FIsNaN(st.ss[1])
(* C08: every step is either a move at one stage or a rejection *)
Counters ==
  st.ph \in {"next", "done"} =>
    LET moves == SumInt(st.iacc) - 1 IN
    /\ st.rej + moves = st.i /\ st.rob <= st.rej /\ Len(hist.rows) = st.i + 1
    /\ \A k \in 2..Len(hist.rows) : k - 1 <= st.i
(* C05: the running covariance is the sample covariance of the rows *)
Covariance ==
  (st.ph = "var" /\ Len(hist.rows) > 2) =>
    LET rows == SubSeq(hist.rows, 1, Len(hist.rows) - 1)
        n  == FInt(Len(rows))
        mu == [j \in 1..cf.np |-> FDiv(FSum([k \in 1..Len(rows) |-> rows[k][j]]), n)]
        S  == [a \in 1..cf.np |-> [b \in 1..cf.np |->
                FDiv(FSum([k \in 1..Len(rows) |-> FMul(FSub(rows[k][a], mu[a]), FSub(rows[k][b], mu[b]))]), FSub(n, F1))]]
    IN /\ VecNear(st.wf.mu, mu, FLit("1e-12"), F1) /\ MatNear(CovOf(st.wf), S, FLit("1e-12"), F1)
(* C01, C03: reversibility of every path of tries with respect to the posterior *)
Flow(P) ==
  LET m == Len(P) - 1  Fs == Factors(C, st, m) IN
  FMul(FMul(FExp(FAdd(P[1].lp, FSum([k \in 1..(m - 1) |-> LogQ(Fs[k], P[1], P[k + 1])]))), OneMinus(Fs, P, m)), Alpha(Fs, P))
Balance ==
  (st.ph \in {"try", "store"} /\ Stage > 1) =>
    LET P == st.path IN
    (P[Len(P)].in /\ ~FEq(P[Len(P)].lp, FLit("-Infinity"))) => FNear(Flow(P), Flow(Rev(P)), FLit("1e-9"), FLit("1e-12"))
(* C03: accepted only with a positive probability, later tries only after rejection *)
Probability ==
  (st.ph \in {"try", "store"} /\ Stage > 1) =>
    LET a == Alpha(Factors(C, st, Stage - 1), st.path) IN
    /\ FLe(F0, a) /\ FLe(a, F1) /\ (st.out > 0 => FLt(F0, a) /\ st.path[Stage].in) /\ Stage - 1 <= cf.ntry
(* C05: the factor changes at adaptation points only *)
FactorKept == [][st'.R # st.R => (st.ph = "adapt" /\ AdaptDue(C, st))]_vars
(* C01: the sample changes by storing only, and then to the last try or not at all *)
SampleKept == [][st'.x # st.x => (st.ph = "store" /\ st.out > 0 /\ st'.x = st.path[Len(st.path)].th)]_vars
Emit == (Gen /\ st.ph = "done") => PrintT("GEN " \o ToJson([cf |-> cf, z |-> hist.z, u |-> hist.u]))
=============================================================================
