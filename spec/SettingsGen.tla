----------------------------- MODULE SettingsGen -----------------------------
(***************************************************************************)
(* Declarations a user can make, enumerated completely over small menus.   *)
(* TLC checks the consistency of the resolution rules of Settings on every *)
(* one of them and prints it; the harness replays each into the real code  *)
(* and SettingsTrace judges what came out.  Numbers are written as         *)
(* decimal strings ("" = not given).                                       *)
(***************************************************************************)
EXTENDS Settings, Json
CONSTANT Kinds
VARIABLES kind, d, done
vars == <<kind, d, done>>

Methods == {"mh", "am", "dr", "dram"}
OptBase == [method |-> "dram", adaptint |-> "", ntry |-> "", adascale |-> "", nsimu |-> "4", savesize |-> "0",
            lastadapt |-> "0", printint |-> "", updatesigma |-> FALSE, N0 |-> "", save_to_json |-> FALSE,
            save_to_bin |-> FALSE, save_to_txt |-> FALSE, save_lightly |-> FALSE, burnintime |-> "0", extra |-> 0]
(* slices of the option space, each enumerated completely *)
OptA == {[OptBase EXCEPT !.method = m, !.adaptint = a, !.ntry = n, !.adascale = s, !.printint = p] :
          m \in Methods, a \in {"", "0", "1", "3", "150", "2000"}, n \in {"", "1", "2", "3"}, s \in {"", "0.75", "25.0", "-1.0"}, p \in {"", "0", "1", "500"}}
OptB == {[OptBase EXCEPT !.method = m, !.nsimu = n, !.savesize = s, !.lastadapt = l, !.adaptint = a] :
          m \in {"am", "dram"}, n \in {"1", "2", "5"}, s \in {"-1", "0", "1", "2", "5", "6"}, l \in {"-2", "0", "1", "3", "5", "9"}, a \in {"", "2"}}
OptC == {[OptBase EXCEPT !.updatesigma = u, !.N0 = n, !.save_to_json = j, !.save_to_bin = b, !.save_to_txt = t, !.save_lightly = l, !.extra = e] :
          u \in BOOLEAN, n \in {"", "0.5", "2.0"}, j \in BOOLEAN, b \in BOOLEAN, t \in BOOLEAN, l \in BOOLEAN, e \in {0, 1}}

Vals == {"-1.0", "0.0", "2.0"}
ParBase == [theta0 |-> "0.5", min |-> "-Infinity", max |-> "Infinity", mu |-> "0.0", sigma |-> "Infinity", sample |-> TRUE, named |-> TRUE]
ParA == {[ParBase EXCEPT !.theta0 = t, !.min = lo, !.max = hi] :
          t \in {"", "-1.0", "0.0", "0.5", "2.0", "3.0"}, lo \in {"-Infinity", "-1.0", "0.0", "2.0"}, hi \in {"Infinity", "-1.0", "0.0", "2.0"}}
ParB == {[ParBase EXCEPT !.theta0 = t, !.mu = m, !.sigma = s, !.named = n] :
          t \in {"", "0.0", "0.5"}, m \in {"NaN", "0.0", "1.25"}, s \in {"Infinity", "0.0", "-1.0", "0.5"}, n \in BOOLEAN}
Fix(p) == [p EXCEPT !.sample = FALSE]
PairMenu == {ParBase, [ParBase EXCEPT !.theta0 = "3.0", !.max = "2.0"], [ParBase EXCEPT !.min = "1.0", !.max = "0.0"],
             [ParBase EXCEPT !.theta0 = "2.0", !.min = "2.0", !.max = "2.0"],
             [ParBase EXCEPT !.theta0 = "-1.0", !.min = "-1.0", !.mu = "NaN", !.sigma = "0.5", !.named = FALSE],
             [ParBase EXCEPT !.theta0 = "", !.mu = "NaN", !.sigma = "-1.0", !.named = FALSE]}
PairAll == PairMenu \cup {Fix(p) : p \in PairMenu}
ParDecls == {<<p>> : p \in ParA \cup ParB}
            \cup {<<Fix(p), ParBase>> : p \in ParA}
            \cup {q \in PairAll \X PairAll : q[1].sample \/ q[2].sample}

Lens == {<<>>, <<"2.0">>, <<"2.0", "3.0">>, <<"2.0", "3.0", "0.5">>}
ModelDecls == {[dn |-> dn, ns |-> ns, sigma2 |-> s, S20 |-> t, N0 |-> n, N |-> <<>>, scalar |-> c, updatesigma |-> u] :
                 dn \in {<<"4.0">>, <<"4.0", "7.0">>, <<"4.0", "7.0", "4.0">>}, ns \in 1..3, s \in Lens, t \in Lens, n \in Lens, c \in {FALSE}, u \in {FALSE}}
              \cup {[dn |-> dn, ns |-> 1, sigma2 |-> s, S20 |-> t, N0 |-> n, N |-> <<>>, scalar |-> TRUE, updatesigma |-> u] :
                 dn \in {<<"4.0">>, <<"4.0", "7.0">>}, s \in {<<>>, <<"2.0">>}, t \in {<<>>, <<"2.5">>}, n \in {<<>>, <<"3.0">>}, u \in BOOLEAN}
              \cup {[dn |-> dn, ns |-> ns, sigma2 |-> <<>>, S20 |-> <<>>, N0 |-> <<>>, N |-> n, scalar |-> FALSE, updatesigma |-> TRUE] :
                 dn \in {<<"4.0">>, <<"4.0", "7.0">>, <<"4.0", "4.0">>, <<"4.0", "7.0", "4.0">>, <<"4.0", "4.0", "4.0">>}, ns \in 1..3,
                 n \in {<<"3.0">>, <<"4.0">>, <<"5.0">>, <<"8.0">>, <<"11.0">>, <<"12.0">>, <<"15.0">>, <<"7.0">>, <<"4.0", "7.0">>, <<"7.0", "4.0">>, <<"4.0", "4.0">>,
                         <<"5.0", "4.0">>, <<"3.0", "3.0">>, <<"3.0", "4.0">>, <<"5.0", "5.0">>, <<"4.0", "7.0", "4.0">>, <<"4.0", "4.0", "7.0">>, <<"4.0", "4.0", "4.0">>, <<"4.0", "4.0", "3.0">>,
                         <<"1.0", "3.0">>, <<"2.0", "2.0">>, <<"1.0", "1.0", "2.0">>, <<"0.0", "4.0">>}}
(* several data sets go with one component or one per data set *)
Sensible(m) == (Len(m.dn) = 1 \/ m.ns \in {1, Len(m.dn)}) /\ (Len(m.N) <= m.ns \/ m.ns = 1)

-----------------------------------------------------------------------------
Num(s) == IF s = "" THEN Null ELSE FLit(s)
IntOf(s) == IF s = "" THEN Null ELSE FToInt(FLit(s))
OptRec(o) == [method |-> o.method, adaptint |-> IntOf(o.adaptint), ntry |-> IntOf(o.ntry), adascale |-> Num(o.adascale),
              nsimu |-> IntOf(o.nsimu), savesize |-> IntOf(o.savesize), lastadapt |-> IntOf(o.lastadapt), printint |-> IntOf(o.printint),
              updatesigma |-> o.updatesigma, save_to_json |-> o.save_to_json, save_to_bin |-> o.save_to_bin,
              save_to_txt |-> o.save_to_txt, save_lightly |-> o.save_lightly]
ParRec(p) == [theta0 |-> Num(p.theta0), min |-> Num(p.min), max |-> Num(p.max), mu |-> Num(p.mu), sigma |-> Num(p.sigma), sample |-> p.sample]
SeqRec(s) == IF s = <<>> THEN Null ELSE MapSeq(s, FLit)
ModRec(m) == [sigma2 |-> SeqRec(m.sigma2), S20 |-> SeqRec(m.S20), N0 |-> SeqRec(m.N0), N |-> SeqRec(m.N)]

Init == /\ kind \in Kinds /\ done = FALSE
        /\ d \in CASE kind = "opt" -> OptA \cup OptB \cup OptC
                   [] kind = "par" -> ParDecls
                   [] kind = "model" -> {m \in ModelDecls : Sensible(m)}
Next == ~done /\ done' = TRUE /\ PrintT("GEN " \o ToJson([kind |-> kind, d |-> d])) /\ UNCHANGED <<kind, d>>
Spec == Init /\ [][Next]_vars

(* what every resolution must satisfy *)
OptOk == kind = "opt" =>
  LET o == OptRec(d) IN
  /\ EffSavesize(o) \in 1..o.nsimu
  /\ EffLastadapt(o) >= 1
  /\ o.method \in {"mh", "dr"} => EffAdaptint(o) = 0
  /\ EffNtry(o) >= 1
  /\ o.printint = Null => EffPrintint(o) \in 100..1000
  /\ (o.save_to_json /\ EffLight(o)) => (o.save_to_bin \/ o.save_to_txt)     \* chains are never lost
  /\ FLt(F0, EffScale(o, 1))
ParOk == kind = "par" =>
  LET ps == MapSeq(d, ParRec) IN
  ~Refused(ps) =>
     /\ \A i \in 1..Len(ps) : FLt(F0, PriorSig(ps[i])) /\ ~FIsNaN(PriorMu(ps[i]))
     /\ \A i \in 1..Len(ps) : ps[i].sample => FLe(ps[i].min, Theta0(ps[i])) /\ FLe(Theta0(ps[i]), ps[i].max)
     /\ LET C == InitQcov(ps, Null) IN FChol(C) # <<>>       \* the default proposal is always usable
     /\ LET c == Continue(ps, Pick(FullInit(ps), Sampled(ps))) IN
          MapSeq(c, PriorMu) = MapSeq(ps, PriorMu) /\ FullInit(c) = FullInit(ps)
ModOk == kind = "model" =>
  LET m == ModRec(d)  dn == MapSeq(d.dn, FLit) IN
  ModelOk(m, dn, d.ns) =>
    LET r == ResolveModel(m, dn, d.ns) IN
    /\ Len(r.sigma2) = d.ns /\ Len(r.S20) = d.ns /\ Len(r.N0) = d.ns /\ Len(r.N) = d.ns
    /\ (d.ns = 1 /\ Len(dn) > 1 /\ m.N = Null) => r.N[1] = FSum(dn)
=============================================================================
