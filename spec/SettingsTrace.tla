---------------------------- MODULE SettingsTrace ----------------------------
(* What the real code made of the declarations enumerated by SettingsGen.   *)
EXTENDS Settings

Traces == JEnv("TRACE")
VARIABLES t, done
Tr == Traces[t]
O == Tr.obs
Clause(ok, props, name) == IF ok THEN {} ELSE {<<props, name, 1, 0>>}
T11 == FLit("1e-11")

OptErr ==
  LET o == Tr.opt  up == EffUpdate(o, Tr.model) IN
  IF Tr.refused THEN Clause(FALSE, "C19", "valid options were refused")
  ELSE
    Clause(O.adaptint = EffAdaptint(o), "C19 C05", "adaptation interval")
    \cup Clause(O.ntry = EffNtry(o), "C19 C03", "number of tries")
    \cup Clause(O.savesize = EffSavesize(o), "C19 C11", "savesize")
    \cup Clause(O.lastadapt = EffLastadapt(o), "C19 C05", "lastadapt")
    \cup Clause(O.printint = EffPrintint(o), "C19", "print interval")
    \cup Clause(O.nsimu = o.nsimu /\ O.rows = o.nsimu, "C19 C08", "nsimu")
    \cup Clause(O.method = o.method, "C19", "method")
    \cup Clause(O.updatesigma = up /\ O.s2 = up, "C19 C07", "error variance update is on iff asked for or N0 is given")
    \cup Clause(O.light = EffLight(o), "C19 C13", "light results file")
    \cup Clause(O.json = IF o.save_to_json THEN ~EffLight(o) ELSE Null, "C19 C13", "results file exists iff asked for and contains the chains iff they are not logged elsewhere")
    \cup Clause(O.bin = o.save_to_bin /\ O.txt = o.save_to_txt, "C19 C11", "log files exist iff asked for")
    \cup Clause(FNear(O.scale, EffScale(o, Tr.np), T11, F0), "C19 C06", "scale of the adapted covariance")
    \cup Clause(\A k \in 1..Len(O.kept) : O.kept[k][2] = O.kept[k][3], "C19", "other options are kept as given")

ParErr ==
  LET ps == Tr.par  idx == Sampled(ps) IN
  Clause(Tr.refused = Refused(ps), "C20", "declarations are refused iff inconsistent")
  \cup (IF Tr.refused THEN Clause(Tr.draws = 0, "C20 C02", "refused before sampling")
        ELSE IF Refused(ps) THEN {}
        ELSE Clause(O.q0 = FullInit(ps), "C20 C04", "initial values")
             \cup Clause(O.row = Pick(FullInit(ps), idx), "C20 C04", "first row")
             \cup Clause(O.allnames = [i \in 1..Len(ps) |-> PName(ps, i)] /\ O.names = [j \in 1..Len(idx) |-> PName(ps, idx[j])], "C20 C04", "names")
             \cup Clause(O.lo = [j \in 1..Len(idx) |-> ps[idx[j]].min] /\ O.hi = [j \in 1..Len(idx) |-> ps[idx[j]].max], "C20 C04", "limits")
             \cup Clause(O.mu = MapSeq(ps, PriorMu) /\ O.sig = MapSeq(ps, PriorSig), "C20", "prior mean and standard deviation"))

ModErr ==
  LET m == Tr.model  ok == ModelOk(m, Tr.dn, Tr.ns)  r == ResolveModel(m, Tr.dn, Tr.ns) IN
  Clause(Tr.refused = ~ok, "C21", "error model is refused iff it does not fit the data and components")
  \cup (IF Tr.refused \/ ~ok THEN Clause(Tr.refused => Tr.draws = 0, "C21", "refused before sampling")
        ELSE Clause(O.s2 # Null \/ O.sigma2 = r.sigma2, "C21", "sigma2")   \* replaced by the last draw when it is updated
             \cup Clause(O.S20 = r.S20, "C21", "S20")
             \cup Clause(O.N0 = r.N0, "C21", "N0")
             \cup Clause(O.N = r.N, "C21", "N")
             \cup Clause(O.nsos = Tr.ns, "C21 C22", "number of components")
             \cup Clause(O.s2 = IF Tr.updatesigma \/ m.N0 # Null THEN r.sigma2 ELSE Null, "C21 C07", "first error variance"))

Err == CASE Tr.kind = "opt" -> OptErr [] Tr.kind = "par" -> ParErr [] Tr.kind = "model" -> ModErr
Init == t \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED t /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(Err))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
