------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Recorded simulations with logging, possibly ended by a crash, against   *)
(* Log: after every event the log files must hold what the log state says, *)
(* the package's readers must return it, and saved results must agree with *)
(* the results in memory.                                                  *)
(***************************************************************************)
EXTENDS Dram, Log

Traces == JEnv("TRACE")
VARIABLES t, k, s, err
vars == <<t, k, s, err>>
Ev == Traces[t].ev
E == Ev[k]
Clause(ok, props, name) == IF ok THEN {} ELSE {<<props, name, s.run, s.L.n - 1>>}
Verdict(e) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(e))

NoLog == LFresh({}, 1, 1)
Init == /\ t \in 1..Len(Traces) /\ k = 1 /\ err = {}
        /\ s = [run |-> 0, L |-> NoLog, chain |-> <<>>, ss |-> <<>>, s2 |-> <<>>, cust |-> <<>>, cov |-> <<>>, R |-> Null,
                raw |-> Null, kind |-> "", i |-> 0, files |-> Null, ends |-> <<>>, up |-> FALSE]

Logged(raw) == (IF raw.opt.save_to_bin THEN {"bin"} ELSE {}) \cup (IF raw.opt.save_to_txt THEN {"txt"} ELSE {})
LogFiles(raw, up) ==
  {<<f, g>> : f \in Logged(raw), g \in {"index", "chain", "ss", "cov"} \cup (IF up THEN {"s2"} ELSE {}) \cup (IF Traces[t].cust THEN {"cust"} ELSE {})}

Data(g) == CASE g = "chain" -> s.chain [] g = "ss" -> s.ss [] g = "s2" -> s.s2 [] g = "cust" -> s.cust
RECURSIVE Flat(_)
Flat(b) == IF b = <<>> THEN <<>> ELSE Head(b) \o Flat(Tail(b))
Rows(g, seg) == SubSeq(Data(g), seg[1] + 1, seg[2] + 1)

(* does file f (content c) hold exactly the segments w?  cov: matrices of the saves so far *)
BlocksNear(c, m) == Len(c) = Len(m) /\ \A a \in 1..Len(m) : MatNear(c[a], m[a], FLit("1e-12"), MatMax(m[a]))
Holds(f, c, w, cov) ==
  IF w = <<>> THEN c = Null \/ c = <<>>
  ELSE /\ c # Null
       /\ CASE f[2] = "index" -> c = w
            [] f[2] = "cov" /\ f[1] = "bin" -> BlocksNear(c, SubSeq(cov, 1, Len(w)))
            [] f[2] = "cov" /\ f[1] = "txt" -> MatNear(c, Flat(SubSeq(cov, 1, Len(w))), FLit("1e-12"), MatMax(Flat(SubSeq(cov, 1, Len(w)))))
            [] f[1] = "bin" -> c = [a \in 1..Len(w) |-> Rows(f[2], w[a])]
            [] f[1] = "txt" -> c = Flat([a \in 1..Len(w) |-> Rows(f[2], w[a])])
Names == {"index", "chain", "ss", "s2", "cov", "cust"}
Prop(f) == IF f[2] = "cust" THEN "C14" ELSE IF s.kind = "cont" THEN "C11 C09" ELSE "C11"
NoneElse(L, files) ==
  UNION {Clause(files[f][g] = Null, "C11 C14", "log file that was not asked for") : <<f, g>> \in ({"bin", "txt"} \X Names) \ L.files}
Exact(L, files, cov, when) ==
  UNION {Clause(Holds(f, files[f[1]][f[2]], L.w[f], cov), IF when = "at the end of the run" /\ f[2] # "cust" THEN Prop(f) \o " C12" ELSE Prop(f), "log file " \o f[2] \o " " \o when) : f \in L.files}
  \cup NoneElse(L, files)
Partial(L, files, cov) ==
  UNION {Clause(\E w \in LMayHold(L, f) : Holds(f, files[f[1]][f[2]], w, cov), Prop(f), "log file " \o f[2] \o " after an interrupted save") : f \in L.files}
  \cup NoneElse(L, files)

(* complete the save in progress, if any *)
Pending == s.L.ph \in {"save", "final"}
Settled == [s EXCEPT !.L = LSaveAll(s.L), !.cov = IF Pending THEN Append(@, RtR(s.R)) ELSE @]
CovNow == IF Pending THEN Append(s.cov, RtR(s.R)) ELSE s.cov

-----------------------------------------------------------------------------
Begin == /\ E.ev = "begin"
         /\ LET up == EffUpdate(E.raw.opt, E.raw.model)
                sz == EffSavesize(E.raw.opt)
                n  == E.raw.opt.nsimu
            IN s' = [s EXCEPT !.run = @ + 1, !.raw = E.raw, !.kind = E.kind, !.i = 0, !.up = up,
                              !.L = IF E.kind = "fresh" THEN LFresh(LogFiles(E.raw, up), n, sz) ELSE LCont(s.L, n, sz)]
         /\ err' = err
Begun == /\ E.ev = "init"
         /\ LET x == Pick(E.q, Sampled(s.raw.par)) IN
            IF s.kind = "fresh"
            THEN s' = [s EXCEPT !.chain = <<x>>, !.R = FChol(InitQcov(s.raw.par, s.raw.opt.qcov)), !.ss = <<E.ss>>, !.cust = << <<FLit("-1"), FLit("0.5")>> >>,
                                !.s2 = << ResolveModel(s.raw.model, s.raw.dn, Len(E.ss)).sigma2 >>]
            ELSE s' = s
         /\ err' = err
Step == /\ E.ev = "step"
        /\ LET q == Settled IN
           /\ err' = err \cup Clause(LStepOk(q.L), "C11 C08", "more steps than asked for")
           /\ s' = [q EXCEPT !.L = IF LStepOk(q.L) THEN LStep(q.L) ELSE q.L, !.chain = Append(@, E.th), !.ss = Append(@, E.ss),
                             !.s2 = IF E.s2 = Null THEN @ ELSE Append(@, E.s2), !.R = E.R, !.i = @ + 1,
                             !.cust = Append(@, <<FInt(s.i + 1), E.th[1]>>)]
Snap == /\ E.ev = "snap"
        /\ s' = Settled /\ err' = err \cup Exact(Settled.L, E.files, Settled.cov, "while sampling")

ChainKeys == {"chain", "sschain", "s2chain"}
JsonErr ==
  IF ~s.raw.opt.save_to_json THEN Clause(E.jsons = <<>> \/ \E a \in 1..Len(s.ends) : s.ends[a].want # Null, "C13", "results file that was not asked for")
  ELSE LET light == EffLight(s.raw.opt)
           keep == DOMAIN E.mem \ (IF light THEN ChainKeys ELSE {})
           names == {E.want} \cup {s.ends[a].want : a \in 1..Len(s.ends)}
       IN IF E.json = Null THEN Clause(FALSE, "C13", "results file is not where it was asked for")
          ELSE Clause(DOMAIN E.json = keep, "C13", "keys of the results file")
               \cup Clause(\A a \in keep \cap DOMAIN E.json : E.json[a] = E.mem[a], "C13", "values in the results file")
               \cup Clause({E.jsons[a] : a \in 1..Len(E.jsons)} = names \ {Null}, "C13", "results files in the directory")
End == /\ E.ev = "end"
       /\ LET q == Settled
              f == [q EXCEPT !.L = LFinish(q.L)]
              g == [f EXCEPT !.L = LSaveAll(f.L), !.cov = IF f.L.ph = "final" THEN Append(@, RtR(s.R)) ELSE @]
          IN /\ err' = err \cup Clause(q.L.left = 0, "C11 C08", "number of steps")
                  \cup Clause(E.chain = s.chain /\ E.ss = s.ss /\ (E.s2 = IF s.up THEN s.s2 ELSE Null), "C08", "chains in the results are the sampled ones")
                  \cup Exact(g.L, E.files, g.cov, "at the end of the run")
                  \cup JsonErr
             /\ s' = [g EXCEPT !.files = E.files,
                               !.ends = Append(@, [want |-> IF s.raw.opt.save_to_json THEN E.want ELSE Null, n |-> Len(s.chain), light |-> EffLight(s.raw.opt), up |-> s.up])]
(* the results are exported again, in full, under the name of the last run *)
Export == /\ E.ev = "export" /\ s' = [s EXCEPT !.ends[Len(s.ends)].light = FALSE]
          /\ err' = err \cup Clause(E.same, "C13 C16", "saving altered the results in memory")

(* the package's own readers, on what the files hold *)
Whole(files, f, g) == LET c == files[f][g] IN IF c = Null THEN <<>> ELSE IF f = "bin" THEN Flat(c) ELSE c
ReadOk(a, c) == IF c = <<>> THEN a.nd = -1 ELSE a.nd = 2 /\ a.v = c
RbErr(files) ==
  UNION {LET b == E.rb[a]
             f == IF b.ext = "h5" THEN "bin" ELSE "txt"
             gone(g) == \E m \in 1..Len(b.missing) : b.missing[m] = g
             want(g) == IF gone(g) THEN <<>> ELSE Whole(files, f, g)
         IN Clause(ReadOk(b.chain, want("chain")), "C12", "chain read from the log files")
            \cup Clause(ReadOk(b.ss, want("ss")), "C12", "sum of squares chain read from the log files")
            \cup Clause(ReadOk(b.s2, want("s2")), "C12", "error variance chain read from the log files")
            \cup Clause(ReadOk(b.cov, want("cov")), "C12", "covariance chain read from the log files")
            \cup Clause((\E g \in {"chain", "ss", "s2", "cov"} : want(g) = <<>>) => b.warned, "C12", "missing log file without warning")
         : a \in 1..Len(E.rb)}
EndOf(file) == s.ends[CHOOSE a \in 1..Len(s.ends) : s.ends[a].want = file /\ \A b \in (a + 1)..Len(s.ends) : s.ends[b].want # file]
LoadErr ==
  UNION {LET l == E.loads[a]
             e == EndOf(l.file)
             f == IF l.ext = "h5" THEN "bin" ELSE "txt"
             upto(c) == SubSeq(c, 1, e.n)
         IN Clause(l.label = l.wantlabel, "C12", "another results file than the requested one was loaded")
            \cup Clause(l.theta.nd = 1, "C12", "lists in the results file become arrays")
            \cup (IF e.light
                  THEN Clause(ReadOk(l.chain, Whole(s.files, f, "chain")) /\ ReadOk(l.ss, Whole(s.files, f, "ss"))
                              /\ l.s2 # Null /\ ReadOk(l.s2, Whole(s.files, f, "s2")) /\ l.cov # Null /\ ReadOk(l.cov, Whole(s.files, f, "cov")),
                              "C12", "chains loaded with the results come from the log files")
                  ELSE Clause(ReadOk(l.chain, upto(s.chain)) /\ ReadOk(l.ss, upto(s.ss))
                              /\ (IF e.up THEN l.s2 # Null /\ ReadOk(l.s2, upto(s.s2)) ELSE l.s2 = Null),
                              "C12 C13", "chains loaded from the results file"))
         : a \in 1..Len(E.loads)}
(* the process ended while opening a file: in the save in progress or, after the last step, in the final one *)
CrashAct ==
  /\ E.ev = "crash"
  /\ LET now == s.L
         fin == LFinish(LSaveAll(s.L))
         cov == s.cov \o <<RtR(s.R), RtR(s.R)>>
         e1  == Partial(now, E.files, cov)
         e2  == Partial(fin, E.files, cov)
     IN /\ err' = err \cup RbErr(E.files)
             \cup (IF E.w = 0 THEN Exact(LSaveAll(s.L), E.files, CovNow, "after the run was interrupted")
                   ELSE IF s.L.left = 0 THEN (IF e1 = {} THEN {} ELSE e2)
                   ELSE e1)
        /\ s' = [s EXCEPT !.L = LCrash(@)]
Read == /\ E.ev = "read" /\ s' = s /\ err' = err \cup RbErr(s.files) \cup LoadErr

Event == k <= Len(Ev) /\ k' = k + 1 /\ (Begin \/ Begun \/ Step \/ Snap \/ End \/ Export \/ CrashAct \/ Read)
Finish == k = Len(Ev) + 1 /\ k' = k + 1 /\ s' = [L |-> NoLog, run |-> 0] /\ Verdict(err) /\ UNCHANGED err
Next == (Event \/ Finish) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
