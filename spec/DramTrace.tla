------------------------------ MODULE DramTrace ------------------------------
(***************************************************************************)
(* Recorded executions of pymcmcstat against Dram.  The verdict is total:  *)
(* a clause that fails is added to err (with the properties it belongs to, *)
(* run and step) and the specification continues from the recorded state,  *)
(* so one deviation does not hide the rest of the trace.                   *)
(*                                                                         *)
(* A trace is [runs |-> <<run, ..>>]; a run has                            *)
(*   raw    declarations and options as given by the user                  *)
(*   kind   "fresh", "cont" (use_previous_results), "restart" (json file)  *)
(*   init   first evaluation q, ss, pr, chain row, factor R, s2            *)
(*   old    rows of the chain before the run (continued runs)              *)
(*   steps  per step: draws d, evaluations e, next row, ss row, s2 row,    *)
(*          the calls of the custom samplers cs, Rn (factor after the      *)
(*          step, Null if unchanged)                                       *)
(*   fin    what the results dictionary reports                            *)
(***************************************************************************)
EXTENDS Dram

Traces == JEnv("TRACE")
VARIABLES t, r, k, cfg, st, dp, ep, err, ps
vars == <<t, r, k, cfg, st, dp, ep, err, ps>>

Run == Traces[t].runs[r]
StepRec == Run.steps[k]
D == StepRec.d
E == StepRec.e

Ctx(props) == IF Run.kind = "cont" THEN props \o (IF Run.was = "restart" THEN " C09 C10" ELSE " C09") ELSE IF Run.kind = "restart" \/ Run.was = "restart" THEN props \o " C10" ELSE props
Clause(ok, props, name) == IF ok THEN {} ELSE {<<Ctx(props), name, r, k>>}

Verdict(e) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(e))
TooMany == Cardinality(err) > 30

T9  == FLit("1e-9")
T8  == FLit("1e-8")
T11 == FLit("1e-11")

-----------------------------------------------------------------------------
Init == /\ t \in 1..Len(Traces) /\ r = 1 /\ k = 0
        /\ cfg = Null /\ st = [ph |-> "begin"] /\ dp = 1 /\ ep = 1 /\ err = {} /\ ps = <<>>

(* expected starting point of the sampled parameters *)
InitPrior(c, th, pr) == IF pr = Null THEN Prior(c.mu, c.sig, th) ELSE pr.v
PriorCallOk(c, th, pr) == pr = Null \/ (pr.th = th /\ pr.mu = c.mu /\ pr.sig = c.sig)
PriorNeeded(pr) == (pr # Null) <=> Run.raw.customprior

(* default sum of squares: weighted residuals of every data set, in order *)
MData == Run.raw.mdata
SosOf(dset, call) ==
  FMul(dset.w, FSum([a \in 1..Len(dset.y) |-> Sq(FSub(dset.y[a], call.y[a]))]))
ModelCallsOk(q, calls) ==
  \/ MData = Null
  \/ calls # Null /\ Len(calls) = Len(MData) /\ \A b \in 1..Len(MData) : calls[b].x = MData[b].x /\ calls[b].q = q
DefaultSosOk(calls, ssrow) ==
  \/ MData = Null
  \/ Len(ssrow) = Len(MData) /\ \A b \in 1..Len(MData) : Len(calls[b].y) = Len(MData[b].y) /\ FNear(SosOf(MData[b], calls[b]), ssrow[b], T11, FLit("1e-300"))
SosRow(evss, ssrow) == IF MData = Null THEN ssrow = evss ELSE VecNear(ssrow, evss, T11, FLit("1e-300"))

OrigSq(c) == IF c.rdr # Null THEN RtR(c.rdr[1]) ELSE c.qcov
BeginRun ==
  /\ st.ph = "begin"
  /\ LET raw == Run.raw
         ini == Run.init
         par == IF Run.kind = "cont" THEN Continue(ps, st.x) ELSE IF Run.kind = "restart" THEN Restart(raw.par, st.saved) ELSE raw.par
         oq  == IF Run.kind = "restart" THEN [m |-> RestartQ(raw.par, st.saved)] ELSE IF Run.kept THEN cfg.oq ELSE raw.opt.qcov
         c0  == [oq |-> oq] @@ MkCfg([raw EXCEPT !.par = par, !.opt.qcov = oq], raw.ns)
         c   == IF Run.kind = "cont" /\ c0.updatesigma THEN [c0 EXCEPT !.sigma2 = st.s2] ELSE c0
         x   == ini.row
         q0  == Merge(c.full, c.idx, x)
         ms  == MatMax(OrigSq(c))
     IN /\ cfg' = c
        /\ ps' = par
        /\ st' = StartState(c, x, ini.ss, InitPrior(c, x, ini.pr), ini.s2, ini.R, Run.old)
        /\ err' = err
             \cup Clause(x = Pick(c.full, c.idx), "C04 C20", "chain does not start at the declared initial values")
             \cup Clause(ini.q = q0, "C04", "first evaluation is not at the full initial vector")
             \cup Clause(Inside(c, x), "C02 C20", "initial sample outside limits")
             \cup Clause(SosRow(ini.ss, ini.ssrow), "C01 C22", "first sum of squares row is not the one evaluated")
             \cup Clause(ModelCallsOk(ini.q, ini.calls), "C22", "model is evaluated for every data set at its x values and the full parameter vector")
             \cup Clause(DefaultSosOk(ini.calls, ini.ssrow), "C22", "sum of squares is not the weighted residual sum per data set")
             \cup Clause(Len(ini.ssrow) = raw.ns, "C22", "number of sum of squares components")
             \cup Clause(PriorNeeded(ini.pr) /\ PriorCallOk(c, x, ini.pr), "C20 C04", "prior function not called with sampled values, means and deviations")
             \cup Clause(IF c.updatesigma THEN ini.s2row # Null ELSE ini.s2row = Null, "C07 C19", "error variance chain exists exactly when it is updated")
             \cup Clause(ini.s2 = c.sigma2, "C07 C21", "initial error variance")
             \cup Clause(ini.s2row = Null \/ ini.s2row = ini.s2, "C07", "first error variance row")
             \cup Clause(MatNear(RtR(ini.R), OrigSq(c), T9, ms), "C06", "square of the first proposal factor")
             \cup Clause(Run.setup = [a \in 1..Run.ncs |-> a], "C14", "custom samplers are set up once per run, in order")
             \cup Clause(Len(Run.steps) = c.nsimu - 1, "C08 C14 C19", "number of simulated steps")
        /\ k' = 0
  /\ UNCHANGED <<t, r, dp, ep>>

NextStep ==
  /\ st.ph = "next" /\ k < Len(Run.steps) /\ ~TooMany
  /\ k' = k + 1 /\ st' = Step0(st) /\ dp' = 1 /\ ep' = 1
  /\ UNCHANGED <<t, r, cfg, err, ps>>
Abort ==
  /\ st.ph = "next" /\ TooMany /\ Verdict(err)
  /\ st' = [ph |-> "end"] /\ UNCHANGED <<t, r, k, cfg, dp, ep, err, ps>>
(* fewer recorded steps than the configuration asks for: already reported *)
ShortRun ==
  /\ st.ph = "next" /\ k >= Len(Run.steps) /\ ~TooMany
  /\ st' = [st EXCEPT !.ph = "done"] /\ UNCHANGED <<t, r, k, cfg, dp, ep, err, ps>>

-----------------------------------------------------------------------------
np == Len(cfg.idx)
HasZ(p) == p + np - 1 <= Len(D) /\ \A a \in p..(p + np - 1) : D[a][1] = 0
ZAt(p) == [a \in 1..np |-> D[p + a - 1][2]]
RECURSIVE UAfter(_)
UAfter(p) == IF p > Len(D) THEN p ELSE IF D[p][1] = 1 THEN UAfter(p + 1) ELSE p
Stage == Len(st.path)             \* number of the try to come
StageProps(a, b) == IF Stage = 1 THEN a ELSE b
NearLimit(th) == ~Run.raw.exact /\ \E a \in 1..Len(th) :
  FNear(th[a], cfg.lo[a], T9, FLit("1e-12")) \/ FNear(th[a], cfg.hi[a], T9, FLit("1e-12"))

TryAct ==
  /\ st.ph = "try" /\ HasZ(dp)
  /\ LET z    == ZAt(dp)
         dz   == dp + np                        \* first draw after z
         du   == UAfter(dz)                     \* first draw after the uniforms
         cand == Candidate(cfg, st, Stage, z)
         sc   == FAdd(FMaxAbs(st.x), FMaxAbs(VecSub(cand, st.x)))
         evd  == ep <= Len(E) /\ E[ep].at >= dz - 1 /\ E[ep].at <= du - 1
         e    == E[ep]
         th   == IF evd THEN Pick(e.q, cfg.idx) ELSE cand
         pr   == IF evd THEN InitPrior(cfg, th, e.pr) ELSE F0
         in   == evd /\ Inside(cfg, th)
         pt   == Point(th, IF evd THEN e.ss ELSE <<>>, pr, in, st.s2)
         P    == Append(st.path, pt)
         Fs   == Factors(cfg, st, Stage)
         row  == StepRec.row
         obs  == evd /\ th = row /\ ep = Len(E) /\ (row # st.x \/ StepRec.acc)
         udr  == dz <= Len(D) /\ D[dz][1] = 1   \* a uniform was drawn
         dec  == IF ~evd THEN 0
                 ELSE IF udr THEN Decide(Fs, P, D[dz][2])
                 ELSE IF Stage = 1
                      THEN LET la == FSub(P[2].lp, P[1].lp) IN IF FLe(F0, la) THEN 1 ELSE IF FIsNaN(la) \/ FLt(la, FLit("-800")) THEN 0 ELSE 2
                 ELSE IF ~AlphaRobust(Fs, P) THEN 2
                 ELSE LET a == Alpha(Fs, P) IN IF FEq(a, F1) THEN 1 ELSE IF FLt(a, FLit("1e-300")) THEN 0 ELSE IF FNear(a, F1, FLit("1e-9"), F1) THEN 2 ELSE 3
     IN /\ st' = DoTry(cfg, st, pt, obs)
        /\ dp' = IF evd THEN du ELSE dz        \* uniforms belong to evaluated tries
        /\ ep' = IF evd THEN ep + 1 ELSE ep
        /\ err' = err
             \cup Clause(evd => VecNear(th, cand, T11, sc), StageProps("C01 C05 C06", "C03 C05 C06"), "candidate is not the current sample plus factor times normal draw")
             \cup Clause(evd => e.q = Merge(cfg.full, cfg.idx, th), "C04", "fixed parameters changed in an evaluation")
             \cup Clause(evd => ModelCallsOk(e.q, e.calls), "C22", "model is evaluated for every data set at its x values and the full parameter vector")
             \cup Clause((obs /\ MData # Null) => DefaultSosOk(e.calls, StepRec.ssrow), "C22", "sum of squares is not the weighted residual sum per data set")
             \cup Clause(evd => in, "C02 C04 C20", "evaluation outside the limits")
             \cup Clause(~evd => (~Inside(cfg, cand) \/ NearLimit(cand)), StageProps("C01 C02", "C02 C03"), "candidate inside the limits was not evaluated")
             \cup Clause(evd => PriorNeeded(e.pr) /\ PriorCallOk(cfg, th, e.pr), "C20 C04", "prior function not called with sampled values, means and deviations")
             \cup Clause(dec = 3 => FALSE, StageProps("C01", "C03") \o (IF cfg.updatesigma THEN " C07" ELSE ""), "decision without random draw although it is not certain")
             \cup Clause(dec = 1 => obs, StageProps("C01", "C03") \o (IF cfg.updatesigma THEN " C07" ELSE ""), "candidate should have been accepted")
             \cup Clause(dec = 0 => ~obs, StageProps("C01", "C03") \o (IF cfg.updatesigma THEN " C07" ELSE "") \o (IF in \/ ~evd THEN "" ELSE " C02"), "candidate should have been rejected")
             \cup Clause(evd /\ e.cu # Null => e.cu = StepRec.cuin, "C14", "latest custom sampler outputs were not passed to the evaluation")
  /\ UNCHANGED <<t, r, k, cfg, ps>>

(* no further normal draws although another try is due *)
TryMissing ==
  /\ st.ph = "try" /\ ~HasZ(dp)
  /\ err' = err \cup Clause(FALSE, StageProps("C01", "C03"), "missing try")
  /\ st' = [st EXCEPT !.ph = "store"]
  /\ UNCHANGED <<t, r, k, cfg, dp, ep, ps>>

-----------------------------------------------------------------------------
(* percentages shown while sampling: rejected, rejected since the last adaptation, rejected outside the limits *)
Rates(s) == LET pc(a, b) == FMul(FInt(100), FDiv(FInt(a), FInt(b))) IN <<pc(s.rej, s.i), pc(s.rw, s.ia), pc(s.rob, s.i)>>
StoreAct ==
  /\ st.ph = "store"
  /\ LET s1 == DoStore(cfg, st)
         row == StepRec.row
     IN /\ err' = err
             \cup Clause(row = s1.x, "C01 C03 C08", "chain row is neither the accepted candidate nor the previous sample")
             \cup Clause(Inside(cfg, row), "C02 C04 C20", "chain row outside the limits")
             \cup Clause(SosRow(s1.ss, StepRec.ssrow), "C01", "sum of squares row does not belong to the chain row")
             \cup Clause(ep > Len(E), "C03 C01", "evaluation after the step was decided")
             \cup Clause(StepRec.acc = (st.out > 0), "C14 C08", "acceptance flag of the custom sampler")
             \cup Clause(IF Run.raw.verb >= 2 /\ cfg.printint > 0 /\ st.i % Max2(1, cfg.printint) = 0
                         THEN Len(StepRec.lines) = 1 /\ VecNear(StepRec.lines[1], Rates(s1), T9, F1) ELSE StepRec.lines = <<>>,
                         "C08", "printed rejection statistics")
        /\ st' = [s1 EXCEPT !.x = row, !.ss = StepRec.ssrow]
  /\ UNCHANGED <<t, r, k, cfg, dp, ep, ps>>

AdaptAct ==
  /\ st.ph = "adapt"
  /\ LET Rn  == IF StepRec.Rn = Null THEN st.R ELSE StepRec.Rn
         sq  == RtR(Rn)
         C   == KeepFixed(cfg, CovOf(st.wf))
         xm  == Sq(FAdd(FMaxAbs(st.wf.mu), FMaxAbs(st.x)))
         A   == AdaptTarget(cfg, C)
         B   == AdaptTarget(cfg, AddDiag(C, cfg.qcov_adjust))
         slack == FMul(FLit("1e-6"), FMul(Sq(cfg.scale), xm))    \* rounding of the covariance: 1e-14 xm
         near(m) == MatNear(sq, m, T8, FAdd(MatMax(m), slack))
         kept == StepRec.Rn = Null
         exactSing == ZeroDiag(C) /\ Run.raw.exact
         ok  == IF exactSing
                THEN IF FChol(AddDiag(C, cfg.qcov_adjust)) # <<>> THEN near(B) ELSE kept
                ELSE IF PosDef(C) THEN near(A)
                ELSE near(A) \/ near(B) \/ kept
     IN /\ err' = err
            \cup (IF ~AdaptDue(cfg, st) THEN Clause(kept, "C05 C19", "proposal factor changed outside the adaptation schedule")
                  ELSE IF InBurnin(cfg, st)
                  THEN Clause(BurninTie(st) \/ MatNear(Rn, MatScale(st.R, BurninFactor(cfg, st)), T9, MatMax(st.R)), "C05 C19", "burn-in scaling of the proposal factor")
                  ELSE Clause(ok, "C05 C19", "adapted proposal factor does not match the covariance of the chain"))
        /\ st' = DoAdapt(cfg, st, Rn)
  /\ UNCHANGED <<t, r, k, cfg, dp, ep, ps>>

RECURSIVE CsErr(_, _)
CsErr(cs, a) ==
  IF a > Len(cs) THEN {}
  ELSE Clause(cs[a].is = st.i, "C14", "step number passed to the custom sampler")
       \cup Clause(cs[a].th = StepRec.row /\ cs[a].ss = StepRec.ssrow, "C14", "current set passed to the custom sampler")
       \cup Clause(cs[a].no = a, "C14", "order of the custom samplers")
       \cup Clause(cs[a].acc = (st.out > 0), "C14", "acceptance flag of the custom sampler")
       \cup Clause(IF cs[a].s2 = Null THEN FALSE ELSE IF StepRec.s2row # Null THEN cs[a].s2 = StepRec.s2row ELSE Len(cs[a].s2) \in {1, Len(st.s2)} /\ \A q \in DOMAIN st.s2 : FNear(IF Len(cs[a].s2) = 1 THEN cs[a].s2[1] ELSE cs[a].s2[q], st.s2[q], T11, F0), "C14", "error variance passed to the custom sampler")
       \cup CsErr(cs, a + 1)

VarAct ==
  /\ st.ph = "var"
  /\ LET g  == Variances(cfg, st.ss, D, dp, 1)
         s2 == StepRec.s2row
     IN /\ err' = err
            \cup CsErr(StepRec.cs, 1)
            \cup Clause(Len(StepRec.cs) = Run.ncs, "C14", "number of custom sampler updates in a step")
            \cup (IF cfg.updatesigma
                  THEN Clause(s2 # Null /\ g.ok /\ VecNear(g.v, s2, T9, F0), "C07", "error variance is not the conjugate draw for the stored sample")
                       \cup Clause(~g.ok \/ g.p = Len(D) + 1, "C07 C15", "unexpected random draws")
                  ELSE Clause(s2 = Null, "C07", "error variance chain without update")
                       \cup Clause(dp = Len(D) + 1, "C01 C15", "unexpected random draws"))
        /\ st' = DoVar(cfg, st, IF s2 = Null THEN st.s2 ELSE s2)
  /\ UNCHANGED <<t, r, k, cfg, dp, ep, ps>>

-----------------------------------------------------------------------------
EndRun ==
  /\ st.ph = "done"
  /\ LET f == Run.fin
         n == FInt(cfg.nsimu)
         all == 1..Len(ps)
     IN err' = err
        \cup Clause(FNear(f.total_rejected, FDiv(FInt(st.rej), n), T11, F0), "C08", "total_rejected")
        \cup Clause(FNear(f.rob, FDiv(FInt(st.rob), n), T11, F0), "C08 C02", "rejected_outside_bounds")
        \cup Clause(IF cfg.ntry > 1 THEN f.iacce = st.iacc ELSE TRUE, "C08 C03", "iacce")
        \cup Clause(f.theta = Merge(cfg.full, cfg.idx, st.x), "C04", "theta in the results")
        \cup Clause(f.names = [j \in 1..np |-> f.allnames[cfg.idx[j]]], "C04", "names in the results")
        \cup Clause(f.allnames = [i \in all |-> PName(ps, i)], "C04 C20", "declared names in the results")
        \cup Clause(f.lo = cfg.lo /\ f.hi = cfg.hi, "C04 C20", "limits in the results")
        \cup Clause(f.mu = MapSeq(ps, PriorMu) /\ f.sig = MapSeq(ps, PriorSig), "C20 C04", "prior in the results")
        \cup Clause(f.parind = [j \in 1..np |-> cfg.idx[j] - 1], "C04", "indices of sampled parameters in the results")
        \cup Clause(f.nsimu = cfg.nsimu, "C08 C19", "nsimu in the results")
        \cup Clause(f.rows = Len(Run.old) + cfg.nsimu /\ f.ssrows = f.rows /\ (f.s2rows = IF cfg.updatesigma THEN f.rows ELSE 0), "C08", "one row per simulated sample")
        \cup Clause(f.oldkept, "C09", "rows of the previous run changed")
        \cup Clause(f.R = st.R, "C06", "R in the results is the factor in use")
        \cup Clause(MatNear(f.qcov, RtR(st.R), T11, MatMax(RtR(st.R))), "C06", "qcov in the results")
        \cup Clause(FNear(f.scale, cfg.scale, T11, F0), "C06 C19", "qcov_scale in the results")
        \cup Clause(MatNear(f.orig, (IF cfg.oq # Null /\ "v" \in DOMAIN cfg.oq THEN <<cfg.oq.v>> ELSE FullQcov(ps, cfg.oq)), IF Run.kind = "restart" THEN T9 ELSE T11, F0)
                    , "C06", "original_covariance in the results")
        \cup Clause(SubMat(f.qcovorig, cfg.idx) = f.qcov, "C06", "sampled part of qcovorig in the results")
        \cup Clause(IF cfg.ntry = 1 THEN TRUE ELSE IF f.rdr = Null THEN FALSE ELSE \A j \in 1..cfg.ntry : MatNear(f.rdr[j], TryFactor(cfg, st, j), T9, MatMax(TryFactor(cfg, st, j))), "C06 C03 C05", "factors of the tries in the results")
        \cup Clause(IF st.seen = Null THEN f.cov = Null ELSE f.cov # Null /\ MatNear(f.cov, st.seen.cov, T8, FAdd(MatMax(st.seen.cov), FMul(FLit("1e-6"), Sq(FMaxAbs(st.seen.mu))))), "C05 C06", "cov in the results")
        \cup Clause(IF st.seen = Null THEN f.mean = Null ELSE f.mean # Null /\ VecNear(f.mean, st.seen.mu, T9, FMaxAbs(st.seen.mu)), "C05", "mean in the results")
  /\ IF r < Len(Traces[t].runs)
     THEN r' = r + 1 /\ k' = 0 /\ st' = [ph |-> "begin", x |-> st.x, s2 |-> st.s2,
                     saved |-> [names |-> [i \in 1..Len(ps) |-> PName(ps, i)], sampled |-> [i \in 1..Len(ps) |-> ps[i].sample],
                                val |-> Merge(cfg.full, cfg.idx, st.x),
                                Q |-> LET F == FullQcov(ps, cfg.oq)  S == RtR(st.R) IN
                                      [i \in 1..Len(ps) |-> [j \in 1..Len(ps) |->
                                         IF ps[i].sample /\ ps[j].sample THEN S[CHOOSE a \in 1..np : cfg.idx[a] = i][CHOOSE a \in 1..np : cfg.idx[a] = j] ELSE F[i][j]]]]]
     ELSE /\ r' = r /\ k' = k /\ st' = [ph |-> "end"]
          /\ Verdict(err')
  /\ UNCHANGED <<t, cfg, dp, ep, ps>>

Next == Abort \/ BeginRun \/ NextStep \/ ShortRun \/ TryAct \/ TryMissing \/ StoreAct \/ AdaptAct \/ VarAct \/ EndRun
Spec == Init /\ [][Next]_vars
=============================================================================
