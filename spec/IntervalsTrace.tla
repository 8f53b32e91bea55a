---------------------------- MODULE IntervalsTrace ----------------------------
(* Recorded interval calculations against Intervals.                         *)
(*  sets[d]: evaluations of data set d in order: theta, y (rows of columns)  *)
(*  z: all standard normal numbers drawn; u: all uniform numbers             *)
(*  kind "pi":   z runs over data sets, samples, rows, columns; out.cred and *)
(*               out.pred[d][column][limit][row]                             *)
(*  kind "prop": one data set; z runs over samples, columns, rows;           *)
(*               out.cred, out.pred[column][sample][row]; quant, plot        *)
(* Position i is a data set.                                                 *)
EXTENDS Intervals, J

Traces == JEnv("TRACE")
VARIABLES t, i, err
vars == <<t, i, err>>
Tr == Traces[t]
Clause(ok, props, name, r, s) == IF ok THEN {} ELSE {<<props, name, r, s>>}
Near(a, b) == FNear(a, b, FLit("1e-8"), FLit("1e-6"))
P == "C23"

Rows == Len(Tr.chain)                       \* after burn-in
NS == NSamples(Tr.nsample, Rows)
HasS2 == Tr.s2 # Null
(* the driver names the row of every evaluation (0: none matches) *)
Claimed(e) == e.row \in 1..Rows /\ FullTheta(Tr.theta, Tr.parind, Tr.chain[e.row]) = e.th
Known == \A d \in 1..Len(Tr.sets) : \A k \in 1..Len(Tr.sets[d]) : Tr.sets[d][k].row \in 1..Rows

(* ---- evaluations of data set d ---- *)
EvalErr(d) ==
  LET e == Tr.sets[d] IN
  IF Len(e) # NS THEN Clause(FALSE, P, "the model is evaluated once per sample and data set", d, Len(e))
  ELSE UNION { Clause(Claimed(e[k]), P, "the model is evaluated at the full parameter vector of a row after burn-in", d, k) : k \in 1..NS }
       \cup (IF AllRows(Tr.nsample, Rows)
             THEN UNION { Clause(e[k].row = k, P, "every row is used once", d, k) : k \in 1..NS }
             ELSE (IF Len(Tr.u) = NS
                   THEN UNION { LET r == Picked(Tr.u[k], Rows) IN
                                Clause(r = <<>> \/ e[k].row = r[1], P, "rows are selected uniformly from the whole chain", d, k) : k \in 1..NS }
                   ELSE LET q == Rows \div 4 used == {e[k].row : k \in 1..NS} IN
                        Clause(NS < 40 \/ (\A a \in 0..3 : \E r \in used : r > a * q /\ r <= (a + 1) * q + 3), P, "rows are selected from the whole chain", d, 0))
                  \cup Clause(d = 1 \/ \A k \in 1..NS : k <= Len(Tr.sets[1]) => Tr.sets[1][k].th = e[k].th, P, "all data sets use the same rows", d, 0))
       \cup UNION { Clause(e[k].d = d, P, "the model sees the data set it is evaluated for", d, k) : k \in 1..NS }

(* ---- kind "pi" ---- *)
NCols == [d \in 1..Len(Tr.sets) |-> Len(Tr.sets[d][1].y[1])]
NRows(d) == Len(Tr.sets[d][1].y)
RECURSIVE ZBefore(_)
ZBefore(d) == IF d = 0 THEN 0 ELSE ZBefore(d - 1) + NS * NRows(d) * NCols[d]
ZAt(d, k, r, c) == Tr.z[ZBefore(d - 1) + ((k - 1) * NRows(d) + (r - 1)) * NCols[d] + c]
PredPI(d, r, c, ty) ==
  [k \in 1..NS |-> LET e == Tr.sets[d][k] s2 == Tr.s2[e.row][S2Column(Len(Tr.s2[1]), NCols, d, c)] IN
                   Observe(e.y[r][c], s2, ZAt(d, k, r, c), ty)]
CredPI(d, r, c) == [k \in 1..NS |-> Tr.sets[d][k].y[r][c]]
Wrong95 == "the upper limit of the 90% credible interval is the 0.9 instead of the 0.95 quantile"
WrongTy == "the requested sstype is ignored and additive noise is used"
PiErr(d) ==
  LET lim == IF Tr.wantpi THEN LimitsPI ELSE LimitsCI
      cr == Tr.out.cred[d] IN
  Clause(Len(cr) = NCols[d] /\ \A c \in 1..Len(cr) : Len(cr[c]) = Len(lim), P, "quantiles are reported for every column and limit", d, 0)
  \cup (IF ~(Len(cr) = NCols[d] /\ \A c \in 1..Len(cr) : Len(cr[c]) = Len(lim)) THEN {} ELSE
        UNION { LET x == CredPI(d, r, c) v == cr[c][l][r] IN
                IF Near(v, Quantile(x, lim[l])) THEN {}
                ELSE IF l = 7 /\ ~Tr.wantpi /\ Near(v, Quantile(x, FLit("0.9"))) THEN Clause(FALSE, P, Wrong95, d, l)
                ELSE Clause(FALSE, P, "credible limits are the interpolated order statistics of the responses", d, l)
                : c \in 1..NCols[d], l \in 1..Len(lim), r \in 1..NRows(d) })
  \cup (IF ~Tr.wantpi THEN Clause(Tr.out.pred = Null /\ Tr.z = <<>>, P, "without prediction intervals no noise is added", d, 0)
        ELSE IF Tr.out.pred = Null \/ Len(Tr.z) # ZBefore(Len(Tr.sets)) THEN Clause(FALSE, P, "one noise number per response, sample and data set", d, Len(Tr.z))
        ELSE UNION { LET v == Tr.out.pred[d][c][l][r] IN
                     IF Near(v, Quantile(PredPI(d, r, c, Tr.sstype), lim[l])) THEN {}
                     ELSE IF Tr.asked /\ Tr.sstype > 0 /\ Near(v, Quantile(PredPI(d, r, c, 0), lim[l])) THEN Clause(FALSE, P, WrongTy, d, 0)
                     ELSE Clause(FALSE, P, "prediction limits are those of responses with noise of the variance of the same row and column", d, l)
                     : c \in 1..NCols[d], l \in 1..Len(lim), r \in 1..NRows(d) })

(* plotted bands of data set d: label, index of the lower and upper limit *)
PBands == (IF Tr.pplot.pred THEN <<[kind |-> "PI", l |-> 95, a |-> 1, b |-> 3]>> ELSE <<>>)
          \o (IF Tr.wantpi THEN <<[kind |-> "CI", l |-> 95, a |-> 1, b |-> 3]>>
              ELSE << [kind |-> "CI", l |-> 99, a |-> 1, b |-> 9], [kind |-> "CI", l |-> 95, a |-> 2, b |-> 8],
                      [kind |-> "CI", l |-> 90, a |-> 3, b |-> 7], [kind |-> "CI", l |-> 50, a |-> 4, b |-> 6] >>)
PPlotErr(d) ==
  IF Tr.pplot = Null THEN {} ELSE
  UNION { LET pl == Tr.pplot.sets[d][c]
              v(k) == IF k = "PI" THEN Tr.out.pred[d][c] ELSE Tr.out.cred[d][c] IN
          Clause(/\ Len(pl.bands) = Len(PBands)
                 /\ \A b \in 1..Len(PBands) : LET x == pl.bands[b] w == PBands[b] IN
                      /\ x.kind = w.kind /\ FEq(x.l, FInt(w.l))
                      /\ \A r \in 1..NRows(d) : Near(x.lo[r], v(w.kind)[w.a][r]) /\ Near(x.hi[r], v(w.kind)[w.b][r]),
                 P, "plotted bands are the calculated limits of their label", d, c)
          \cup Clause(\A r \in 1..NRows(d) : Near(pl.median[r], Tr.out.cred[d][c][IF Tr.wantpi THEN 2 ELSE 5][r]), P, "the plotted line is the median", d, c)
          \cup Clause(pl.lines = pl.obs, P, "the plotted observations are those of the data set and column", d, c)
          : c \in 1..Len(Tr.pplot.sets[d]) }

(* ---- kind "prop" ---- *)
NC == Len(Tr.sets[1][1].y[1])
NR == Len(Tr.sets[1][1].y)
ZProp(k, r, c) == Tr.z[((k - 1) * NC + (c - 1)) * NR + r]
PropErr ==
  LET e == Tr.sets[1] IN
  IF Len(e) # NS THEN {} ELSE
  Clause(Len(Tr.out.cred) = NC, P, "one set of samples per output column", 0, 0)
  \cup (IF Len(Tr.out.cred) # NC THEN {} ELSE
        UNION { Clause(Len(Tr.out.cred[c]) = NS /\ \A k \in 1..NS : Tr.out.cred[c][k] = [r \in 1..NR |-> e[k].y[r][c]], P,
                       "credible samples are the responses", 0, c) : c \in 1..NC })
  \cup (IF ~HasS2 THEN Clause(Tr.out.pred = Null /\ Tr.z = <<>>, P, "without error variance there are no prediction samples", 0, 0)
        ELSE IF Tr.out.pred = Null \/ Len(Tr.z) # NS * NR * NC THEN Clause(FALSE, P, "one noise number per response and sample", 0, Len(Tr.z))
        ELSE UNION { Clause(\A k \in 1..NS, r \in 1..NR :
                              Near(Tr.out.pred[c][k][r], Observe(e[k].y[r][c], Tr.s2[e[k].row][IF Len(Tr.s2[1]) = NC THEN c ELSE 1], ZProp(k, r, c), Tr.sstype)),
                            P, "prediction samples add noise of the variance of the same row and column", 0, c) : c \in 1..NC })
  \cup UNION { LET q == Tr.quant[n] x == IF q.of = "cred" THEN Tr.out.cred[q.c] ELSE Tr.out.pred[q.c] IN
               Clause(\A l \in 1..Len(q.p), r \in 1..NR : Near(q.v[l][r], Quantile([k \in 1..NS |-> x[k][r]], q.p[l])), P,
                      "quantiles are interpolated order statistics of the samples", n, 0) : n \in 1..Len(Tr.quant) }
  \cup (IF Tr.plot = Null THEN {} ELSE
        LET pl == Tr.plot c == pl.c
            x(kind) == IF kind = "CI" THEN Tr.out.cred[c] ELSE Tr.out.pred[c]
            Desc(s) == \A a \in 1..(Len(s) - 1) : ~FLt(s[a].l, s[a + 1].l)
            Band(b) == \A r \in 1..NR : /\ Near(b.lo[r], Quantile([k \in 1..NS |-> x(b.kind)[k][r]], Lower(b.l)))
                                         /\ Near(b.hi[r], Quantile([k \in 1..NS |-> x(b.kind)[k][r]], Upper(b.l))) IN
        Clause(\A b \in 1..Len(pl.bands) : Band(pl.bands[b]), P, "plotted bands are the quantiles of their label", 0, 0)
        \cup Clause([b \in 1..Len(pl.bands) |-> <<pl.bands[b].kind, pl.bands[b].l>>] = [b \in 1..Len(pl.want) |-> <<pl.want[b].kind, pl.want[b].l>>], P,
                    "the requested intervals are plotted, wider ones first", 0, 0)
        \cup Clause(pl.median = Null \/ (pl.mt = pl.t /\ \A r \in 1..NR : Near(pl.median[r], Quantile([k \in 1..NS |-> Tr.out.cred[c][k][r]], FLit("0.5")))), P, "the plotted response is the median", 0, 0)
        \cup Clause(pl.lines = (IF pl.obs = Null THEN <<>> ELSE <<pl.obs>>), P, "the plotted observations are those given", 0, 0)
        \cup Clause(pl.same, P, "plotting leaves the settings of the user unchanged", 0, 0))

Frame == Clause(Tr.same, P, "results, chains and data are left unchanged", 0, 0)
Last == Len(Tr.sets)
Init == t \in 1..Len(Traces) /\ i = 0 /\ err = {}
Next == /\ i <= Last /\ i' = i + 1 /\ UNCHANGED t
        /\ err' = err \cup (IF i < Last THEN EvalErr(i + 1) \cup (IF Tr.kind = "pi" /\ Known /\ \A d \in 1..Last : Len(Tr.sets[d]) = NS THEN PiErr(i + 1) \cup PPlotErr(i + 1) ELSE {})
                            ELSE Frame \cup (IF Tr.kind = "prop" /\ Known THEN PropErr ELSE {}))
        /\ i = Last => PrintT("VERDICT " \o ToString(t) \o " " \o ToString(err'))
Spec == Init /\ [][Next]_vars
===============================================================================
