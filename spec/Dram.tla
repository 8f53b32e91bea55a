-------------------------------- MODULE Dram --------------------------------
(***************************************************************************)
(* The sampler: delayed rejection adaptive Metropolis with conjugate error *)
(* variance updates, as a state machine.                                   *)
(*                                                                         *)
(* A run is configured by a record c (see MkCfg).  Its state is a record   *)
(*   x, ss, pr, s2   current sample (sampled parameters only), its sum of  *)
(*                   squares (one entry per component), prior and the      *)
(*                   current error variances                               *)
(*   R               current proposal factor                               *)
(*   i               simulation counter, 1 .. nsimu-1 while running        *)
(*   ph              phase of the step: "try" "store" "adapt" "var" "done" *)
(*   path            the tries of the current step, first element = x      *)
(*   out             stage accepted in this step, 0 = none                 *)
(*   ia, rw          steps / rejections since the last adaptation point    *)
(*   rej, rob, iacc  rejected steps, those whose last try was outside the  *)
(*                   limits, accepted steps per stage                      *)
(*   wf              [W, mu, M]: weight, mean and scatter matrix of all    *)
(*                   rows of the chain before the current one              *)
(*   adapted         the proposal factor was replaced at least once        *)
(*   seen            covariance and mean at the last adaptation            *)
(* One operator per critical section of the implementation maps a state    *)
(* and the values drawn or computed by the environment to the next state;  *)
(* MCDram explores them exhaustively, DramTrace compares them with         *)
(* recorded executions.                                                    *)
(***************************************************************************)
EXTENDS Settings, SequencesExt

Half == FLit("0.5")

(* ---------------- log posterior ---------------- *)
(* an undefined value counts as no posterior mass at all                   *)
LogPost(ss, pr, s2) ==
  LET v == FMul(FLit("-0.5"), FAdd(FSum([k \in 1..Len(ss) |-> FDiv(ss[k], s2[k])]), pr))
  IN IF FIsNaN(v) THEN FLit("-Infinity") ELSE v

(* ---------------- proposals ---------------- *)
(* factor of try j: user supplied factors until the first adaptation, else *)
(* the current factor divided by the cumulative drscale                    *)
TryFactor(c, st, j) ==
  IF j = 1 THEN st.R
  ELSE IF c.rdr # Null /\ ~st.adapted THEN c.rdr[j]
  ELSE MatScale(st.R, FDiv(F1, DrFactor(c.drscale, j)))
Candidate(c, st, j, z) == VecAdd(st.x, VecMat(z, TryFactor(c, st, j)))
Inside(c, th) == \A k \in 1..Len(th) : FLe(c.lo[k], th[k]) /\ FLe(th[k], c.hi[k])

(* ---------------- n-stage acceptance probability ---------------- *)
(* a point of the path: [th, lp, in]; lp is meaningless if ~in             *)
Sub(P, n) == SubSeq(P, 1, n)
Rev(P) == [k \in 1..Len(P) |-> P[Len(P) + 1 - k]]
LogQ(R, a, b) == LET w == FRSolve(VecSub(b.th, a.th), R) IN FMul(FLit("-0.5"), FDot(w, w))
(* Fs: factors per stage.  Path P = <<x, y1, .., ym>>, probability of      *)
(* moving from x to ym given that y1 .. y(m-1) were rejected.              *)
RECURSIVE Alpha(_, _), OneMinus(_, _, _)
OneMinus(Fs, P, k) ==      \* product over prefixes of length 2 .. k of 1 - alpha
  IF k < 2 THEN F1 ELSE FMul(OneMinus(Fs, P, k - 1), FSub(F1, Alpha(Fs, Sub(P, k))))
Alpha(Fs, P) ==
  LET m == Len(P) - 1 IN
  IF ~P[m + 1].in THEN F0
  ELSE IF m = 1
       THEN LET y == FSub(P[2].lp, P[1].lp) IN IF FLt(y, F0) THEN FExp(y) ELSE IF FIsNaN(y) THEN F0 ELSE F1
  ELSE LET Q   == Rev(P)
           den == OneMinus(Fs, P, m)
           num == OneMinus(Fs, Q, m)
           lq  == FSum([k \in 1..(m - 1) |->
                     FSub(LogQ(Fs[k], Q[1], Q[k + 1]), LogQ(Fs[k], P[1], P[k + 1]))])
           y   == FAdd(FSub(P[m + 1].lp, P[1].lp), lq)
           a   == FDiv(FMul(FExp(y), num), den)
       IN IF FEq(num, F0) THEN F0 ELSE IF FLt(a, F1) THEN a ELSE F1
(* the numbers are meaningful only if the denominator is not tiny *)
AlphaRobust(Fs, P) == FLt(FLit("1e-7"), OneMinus(Fs, P, Len(P) - 1))

(* decision of stage j: +1 accept, 0 reject, 2 = too close to call *)
Decide(Fs, P, u) ==
  IF ~P[Len(P)].in THEN 0
  ELSE IF Len(P) = 2
    THEN LET la == FSub(P[2].lp, P[1].lp) lu == FLn(u) IN
         IF FIsNaN(la) THEN 0
         ELSE IF FNear(la, lu, FLit("1e-9"), FAdd(F1, FAdd(FAbs(P[1].lp), FAbs(P[2].lp)))) /\ ~FEq(la, FLit("-Infinity")) THEN 2
         ELSE IF FLt(lu, la) THEN 1 ELSE 0
    ELSE LET a == Alpha(Fs, P) IN
         IF ~AlphaRobust(Fs, P) THEN 2
         ELSE IF FNear(a, u, FLit("1e-6"), FLit("1e-300")) \/ FNear(a, u, FLit("1e-9"), F1) THEN 2
         ELSE IF FLt(u, a) THEN 1 ELSE 0

(* ---------------- one step ---------------- *)
Step0(st) == [st EXCEPT !.i = @ + 1, !.ph = "try", !.out = 0,
              !.path = <<[th |-> st.x, ss |-> st.ss, pr |-> st.pr, in |-> TRUE,
                          lp |-> LogPost(st.ss, st.pr, st.s2)]>>]

Point(th, ss, pr, in, s2) ==
  [th |-> th, ss |-> ss, pr |-> pr, in |-> in,
   lp |-> IF in THEN LogPost(ss, pr, s2) ELSE FLit("-Infinity")]
Factors(c, st, n) == [j \in 1..n |-> TryFactor(c, st, j)]

(* try: pt is the candidate with its evaluation, acc the decision *)
DoTry(c, st, pt, acc) ==
  LET p == Append(st.path, pt)
      j == Len(p) - 1
  IN [st EXCEPT !.path = p, !.out = IF acc THEN j ELSE 0,
                !.ph = IF acc \/ j >= c.ntry THEN "store" ELSE "try"]

(* ---------------- storing and adaptation ---------------- *)
(* running weight / mean / scatter; the first row only sets the mean *)
AddRow(w, row) ==
  IF FEq(w.W, F0)
  THEN [W |-> F1, mu |-> row, M |-> [a \in 1..Len(row) |-> [b \in 1..Len(row) |-> F0]]]
  ELSE LET d  == VecSub(row, w.mu)
           W1 == FAdd(w.W, F1)
           f  == FDiv(w.W, W1)
       IN [W |-> W1,
           mu |-> [a \in 1..Len(row) |-> FAdd(w.mu[a], FDiv(d[a], W1))],
           M |-> [a \in 1..Len(row) |-> [b \in 1..Len(row) |->
                    FAdd(w.M[a][b], FMul(f, FMul(d[a], d[b])))]]]
AddRows(w, rows) == FoldLeft(AddRow, w, rows)
(* store the outcome of the tries as the next row *)
DoStore(c, st) ==
  LET last == st.path[Len(st.path)]
      moved == st.out > 0
  IN [st EXCEPT
        !.x  = IF moved THEN last.th ELSE @,
        !.ss = IF moved THEN last.ss ELSE @,
        !.pr = IF moved THEN last.pr ELSE @,
        !.wf = AddRow(@, st.x),      \* the row before the one stored now
        !.ph = "adapt",
        !.ia = @ + 1,
        !.rw = IF moved THEN @ ELSE @ + 1,
        !.rej = IF moved THEN @ ELSE @ + 1,
        !.rob = IF ~moved /\ ~last.in THEN @ + 1 ELSE @,
        !.iacc = IF moved THEN [@ EXCEPT ![st.out] = @ + 1] ELSE @]

CovOf(w) == LET d == FSub(w.W, F1) IN
  [a \in 1..Len(w.mu) |-> [b \in 1..Len(w.mu) |-> IF FLt(F0, d) THEN FDiv(w.M[a][b], d) ELSE F0]]
KeepFixed(c, C) ==
  [a \in 1..Len(C) |-> [b \in 1..Len(C) |-> IF c.noadapt[a] \/ c.noadapt[b] THEN c.qcov[a][b] ELSE C[a][b]]]
AddDiag(C, e) == [a \in 1..Len(C) |-> [b \in 1..Len(C) |-> IF a = b THEN FAdd(C[a][b], e) ELSE C[a][b]]]

AdaptDue(c, st) == c.adaptint > 0 /\ st.i % c.adaptint = 0 /\ st.i <= c.lastadapt
InBurnin(c, st) == st.i < c.burnintime
RejFrac(st) == FDiv(FInt(st.rw), FInt(st.ia))
BurninFactor(c, st) ==
  IF FLt(FLit("0.95"), RejFrac(st)) THEN FDiv(F1, c.burnin_scale)
  ELSE IF FLt(RejFrac(st), FLit("0.05")) THEN c.burnin_scale ELSE F1
BurninTie(st) == FNear(RejFrac(st), FLit("0.95"), FLit("1e-9"), F1) \/ FNear(RejFrac(st), FLit("0.05"), FLit("1e-9"), F1)

(* the covariance is hopelessly / comfortably positive definite, or in     *)
(* between, where rounding decides                                          *)
RECURSIVE MinPivot(_, _, _)
MinPivot(R, C, k) == IF k > Len(R) THEN F1
  ELSE LET p == FDiv(FMul(R[k][k], R[k][k]), C[k][k]) q == MinPivot(R, C, k + 1) IN IF FLt(p, q) THEN p ELSE q
PosDef(C) == LET R == FChol(C) IN R # <<>> /\ FLt(FLit("1e-8"), MinPivot(R, C, 1))
ZeroDiag(C) == \E a \in 1..Len(C) : FEq(C[a][a], F0)
(* candidates for the square of the factor after an adaptation *)
AdaptTarget(c, C) == MatScale(C, Sq(c.scale))
(* the factor the specification itself computes (model checking) *)
AdaptR(c, st) ==
  IF InBurnin(c, st) THEN MatScale(st.R, BurninFactor(c, st))
  ELSE LET C  == KeepFixed(c, CovOf(st.wf))
           R1 == FChol(C)
           R2 == FChol(AddDiag(C, c.qcov_adjust))
       IN IF R1 # <<>> THEN MatScale(R1, c.scale)
          ELSE IF R2 # <<>> THEN MatScale(R2, c.scale) ELSE st.R
DoAdapt(c, st, R) ==
  IF AdaptDue(c, st)
  THEN [st EXCEPT !.R = R, !.adapted = TRUE, !.ia = 0, !.rw = 0, !.ph = "var",
                  !.seen = IF InBurnin(c, st) THEN @ ELSE [cov |-> CovOf(st.wf), mu |-> st.wf.mu]]
  ELSE [st EXCEPT !.ph = "var"]

(* ---------------- error variance ---------------- *)
GShape(c, k) == FMul(Half, FAdd(c.N0[k], c.N[k]))
GScale(c, ss, k) == FDiv(FInt(2), FAdd(FMul(c.N0[k], c.S20[k]), ss[k]))
(* Marsaglia and Tsang (2000): a gamma(a, b) variate from the draws D[p..];*)
(* a draw is <<0, normal>>, <<1, uniform>> or <<2, shape, scale, gamma>>.  *)
Bad == [ok |-> FALSE, y |-> F0, p |-> 0]
RECURSIVE MTLoop(_, _, _, _)
MTLoop(D, p, d, c) ==
  IF p > Len(D) THEN Bad ELSE IF D[p][1] # 0 THEN Bad
  ELSE LET x == D[p][2]  v0 == FAdd(F1, FMul(c, x)) IN
    IF ~FLt(F0, v0) THEN MTLoop(D, p + 1, d, c)
    ELSE IF p + 1 > Len(D) THEN Bad ELSE IF D[p + 1][1] # 1 THEN Bad
    ELSE LET u == D[p + 1][2]
             v == FMul(v0, FMul(v0, v0))
             x2 == FMul(x, x)
         IN IF \/ FLt(u, FSub(F1, FMul(FLit("0.0331"), FMul(x2, x2))))
               \/ FLt(FLn(u), FAdd(FMul(Half, x2), FMul(d, FAdd(FSub(F1, v), FLn(v)))))
            THEN [ok |-> TRUE, y |-> FMul(d, v), p |-> p + 2]
            ELSE MTLoop(D, p + 2, d, c)
GammaFrom(D, p, a, b) ==
  IF p > Len(D) THEN Bad
  ELSE IF D[p][1] = 2
       THEN [ok |-> FNear(D[p][2], a, FLit("1e-9"), F0), y |-> FMul(FDiv(D[p][4], D[p][3]), b), p |-> p + 1]
  ELSE LET a1 == IF FLt(a, F1) THEN FAdd(a, F1) ELSE a
           d  == FSub(a1, FDiv(F1, FInt(3)))
           g  == MTLoop(D, p, d, FDiv(F1, FSqrt(FMul(FInt(9), d))))
       IN IF ~g.ok THEN g
          ELSE IF ~FLt(a, F1) THEN [g EXCEPT !.y = FMul(b, @)]
          ELSE IF g.p > Len(D) THEN Bad ELSE IF D[g.p][1] # 1 THEN Bad
          ELSE [ok |-> TRUE, p |-> g.p + 1, y |-> FMul(FMul(b, g.y), FPow(D[g.p][2], FDiv(F1, a)))]
RECURSIVE Variances(_, _, _, _, _)
(* all components in order: [ok, v, p] *)
Variances(c, ss, D, p, k) ==
  IF k > Len(ss) THEN [ok |-> TRUE, v |-> <<>>, p |-> p]
  ELSE LET g == GammaFrom(D, p, GShape(c, k), GScale(c, ss, k)) IN
       IF ~g.ok THEN [ok |-> FALSE, v |-> <<>>, p |-> p]
       ELSE LET r == Variances(c, ss, D, g.p, k + 1) IN
            [r EXCEPT !.v = <<FDiv(F1, g.y)>> \o @]
DoVar(c, st, s2) ==
  [st EXCEPT !.s2 = IF c.updatesigma THEN s2 ELSE @,
             !.ph = IF st.i >= c.nsimu - 1 THEN "done" ELSE "next"]

(* ---------------- configuration and start ---------------- *)
MkCfg(raw, ns) ==
  LET o == raw.opt  idx == Sampled(raw.par)  m == ResolveModel(raw.model, raw.dn, ns) IN
  [nsimu |-> o.nsimu, ntry |-> EffNtry(o), printint |-> EffPrintint(o), adaptint |-> EffAdaptint(o),
   lastadapt |-> EffLastadapt(o), burnintime |-> o.burnintime, burnin_scale |-> o.burnin_scale,
   drscale |-> o.drscale, rdr |-> IF EffNtry(o) > 1 \/ o.method \in {"dr", "dram"} THEN o.rdr ELSE Null,
   qcov_adjust |-> o.qcov_adjust,
   scale |-> EffScale(o, Len(idx)), initw |-> o.initqcovn,
   qcov |-> InitQcov(raw.par, o.qcov),
   noadapt |-> [j \in 1..Len(idx) |-> ~raw.par[idx[j]].adapt],
   idx |-> idx, full |-> FullInit(raw.par),
   lo |-> [j \in 1..Len(idx) |-> raw.par[idx[j]].min],
   hi |-> [j \in 1..Len(idx) |-> raw.par[idx[j]].max],
   mu |-> [j \in 1..Len(idx) |-> PriorMu(raw.par[idx[j]])],
   sig |-> [j \in 1..Len(idx) |-> PriorSig(raw.par[idx[j]])],
   updatesigma |-> EffUpdate(o, raw.model),
   N |-> m.N, N0 |-> m.N0, S20 |-> m.S20, sigma2 |-> m.sigma2]
NoRows == [W |-> F0, mu |-> <<>>, M |-> <<>>]
WStart(c, x) ==
  IF c.initw = Null THEN NoRows
  ELSE [W |-> c.initw, mu |-> x, M |-> MatScale(c.qcov, FSub(c.initw, F1))]
StartState(c, x, ss, pr, s2, R, oldrows) ==
  [x |-> x, ss |-> ss, pr |-> pr, s2 |-> s2, R |-> R, i |-> 0, ph |-> IF c.nsimu > 1 THEN "next" ELSE "done",
   path |-> <<>>, out |-> 0, ia |-> 0, rw |-> 0, rej |-> 0, rob |-> 0,
   iacc |-> [j \in 1..c.ntry |-> IF j = 1 THEN 1 ELSE 0],     \* the initial sample counts as accepted
   wf |-> AddRows(WStart(c, x), oldrows), adapted |-> FALSE,
   seen |-> IF c.initw = Null THEN Null ELSE [cov |-> c.qcov, mu |-> x]]
=============================================================================
