------------------------------ MODULE PlotsTrace ------------------------------
(* Recorded figures against Plots.  kind: "chain", "pairs", "hist",          *)
(* "density", "metrics" (figures; panels[k]: place in reading order, grid    *)
(* size, labels, lines, bars) or "util" (numbers).  Position i is a          *)
(* parameter.                                                                *)
EXTENDS Plots, J

Traces == JEnv("TRACE")
VARIABLES t, i, err
vars == <<t, i, err>>
Tr == Traces[t]
Clause(ok, props, name, r, s) == IF ok THEN {} ELSE {<<props, name, r, s>>}
P == "C25"
Tol == FLit("1e-8")
Near(a, b, sc) == FNear(a, b, Tol, sc)
NPar == Len(Tr.rows[1])
N == Len(Tr.rows)
X(j) == Col(Tr.rows, j)
Nm == Names(Tr.names, NPar)
Has(s, part) == \E k \in 1..Len(s) : s[k] = part          \* the driver splits labels into their words

(* one panel per parameter, in order *)
OwnPanel(j) == j <= Len(Tr.panels) /\ Tr.panels[j].place = j
PanelsErr == Clause(Len(Tr.panels) = NPar /\ \A j \in 1..NPar : OwnPanel(j), P, "there is one panel per parameter, in their order", 0, Len(Tr.panels))
             \cup Clause(Tr.same, P, "plotting leaves the chain and the names unchanged", 0, 0)
Ints(s) == [k \in 1..Len(s) |-> FInt(s[k])]
Inds == RowsShown(N, StepOf(Tr.skip, Tr.maxpoints, N))
NearSeq(a, b, sc) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], sc)

ChainErr(j) ==
  LET p == Tr.panels[j] IN
  Clause(Len(p.lines) = 1 /\ p.lines[1].x = Ints(Inds), P, "the rows shown are evenly spaced from the first, thinned only above the maximum", 0, j)
  \cup Clause(Len(p.lines) = 1 /\ p.lines[1].y = At(X(j), Inds), P, "the values shown are those of the parameter at the rows shown", 0, j)
  \cup Clause(Tr.panels[j].ylabel = Nm[j], P, "the panel is labelled with the name of the parameter", 0, j)

(* pairs: parameter a on the abscissa, b > a on the ordinate, in row b-1 and column a of a square grid *)
PairList == {p \in (1..NPar) \X (1..NPar) : p[1] < p[2]}
PanelOf(a, b) == {k \in 1..Len(Tr.panels) : Tr.panels[k].place = (b - 2) * (NPar - 1) + a}
PairsErr ==
  Clause(Len(Tr.panels) = Cardinality(PairList), P, "there is one panel per pair of parameters", 0, Len(Tr.panels))
  \cup Clause(Tr.same, P, "plotting leaves the chain and the names unchanged", 0, 0)
  \cup UNION { LET a == ab[1] b == ab[2] IN
               IF Cardinality(PanelOf(a, b)) # 1 THEN Clause(FALSE, P, "the panel of a pair is in the row and column of its parameters", a, b)
               ELSE LET p == Tr.panels[CHOOSE k \in PanelOf(a, b) : TRUE] IN
                    Clause(Len(p.lines) = 1 /\ p.lines[1].x = At(X(a), Inds) /\ p.lines[1].y = At(X(b), Inds), P, "a pair shows the same rows of both parameters", a, b)
                    \cup Clause(a # 1 \/ p.ylabel = Nm[b], P, "rows of pairs are labelled with the name of the parameter", a, b)
                    \cup Clause(a # b - 1 \/ p.title = Nm[a] \/ p.xlabel = Nm[a], P, "columns of pairs are labelled with the name of the parameter", a, b)
               : ab \in PairList }

HistErr(j, p, dens) ==
  LET x == X(j) n == Len(p.bars)
      flat == n > 1 /\ ~FLt(MinOf(x), MaxOf(x))             \* constant: any range around the value will do
      lo == IF flat THEN p.bars[1].left ELSE MinOf(x)
      hi == IF flat THEN FAdd(p.bars[n].left, p.bars[n].width) ELSE MaxOf(x)
      w == FDiv(FSub(hi, lo), FInt(n)) eps == FMul(FLit("1e-9"), FAdd(Scale(x), FSub(hi, lo)))
      l(k) == FAdd(lo, FMul(FInt(k - 1), w)) IN
  Clause(n > 1 /\ \A k \in 1..n : Near(p.bars[k].left, l(k), Scale(x)) /\ Near(p.bars[k].width, w, Scale(x)), P, "bins of a histogram divide the range of the parameter evenly", 0, j)
  \cup (IF n < 2 THEN {} ELSE
        Clause(\A k \in 1..n : LET c == HistCount(x, l(k), l(k + 1), eps)
                                   h == IF dens THEN FMul(FMul(p.bars[k].height, w), Nr(N)) ELSE p.bars[k].height IN
                 ~FLt(FAdd(h, FLit("1e-5")), FInt(c[1])) /\ ~FLt(FAdd(FInt(c[2]), FLit("1e-5")), h), P, "bars of a histogram count the values in their bins", 0, j))

DensErr(j) ==
  LET p == Tr.panels[j] x == X(j) h == Reference(x) c == p.lines[1] n == Len(c.x) IN
  IF Len(p.lines) # 1 \/ n # 100 THEN Clause(FALSE, P, "the density is evaluated at 100 points", 0, j) ELSE
  Clause(\A k \in 1..n : Near(c.x[k], GridAt(x, k, n), Scale(x)), P, "the density covers the range of the parameter evenly", 0, j)
  \cup Clause(\A k \in {m \in 1..n : m % 9 = 1} : FNear(c.y[k], Kde(x, h, c.x[k]), FLit("1e-6"), FDiv(FLit("1e-3"), h)), P, "the density is the kernel estimate of the values of the parameter", 0, j)
  \cup Clause(p.xlabel = Nm[j], P, "the panel is labelled with the name of the parameter", 0, j)
  \cup (IF Tr.histon THEN HistErr(j, p, TRUE) ELSE Clause(p.bars = <<>>, P, "histograms are shown only if requested", 0, j))

MetErr ==
  LET p == Tr.panels[1] q == Tr.panels[2] x == X(1) IN
  IF Len(Tr.panels) # 2 THEN Clause(FALSE, P, "chain metrics show the chain and its histogram", 0, 0) ELSE
  Clause(Len(p.lines) = 1 /\ p.lines[1].x = Ints(RowsShown(N, 1)) /\ p.lines[1].y = x, P, "chain metrics show every value of the chain", 0, 0)
  \cup HistErr(1, q, FALSE)

UtilErr(j) ==
  LET x == X(j) sc == Scale(x) IN
  UNION { LET g == Tr.grids[k] IN
          Clause(Len(g.g[j]) = g.n /\ \A m \in 1..Len(g.g[j]) : Near(g.g[j][m], GridAt(x, m, g.n), sc), P, "the grid covers the range of the values evenly", k, j) : k \in 1..Len(Tr.grids) }
  \cup Clause(Near(Tr.iqr[j], Iqr(x), sc), P, "the interquartile range is that of the sorted values", 0, j)
  \cup Clause(Near(Tr.band[j], Bandwidth(x), sc), P, "the bandwidth is the smaller of the two scale estimates", 0, j)
  \cup UNION { LET g == Tr.gauss[k] IN Clause(FNear(g.y, Gauss(g.x, g.mu, g.s2), FLit("1e-9"), FInt(0)), P, "the Gaussian density follows its definition", k, j) : k \in 1..Len(Tr.gauss) }
EllErr ==
  UNION { LET e == Tr.ell[k]
              R == FChol(e.c)
              d(m) == FRSolve(<<FSub(e.x[m], e.mu[1]), FSub(e.y[m], e.mu[2])>>, R)
              quad(a, b) == \E m \in 1..Len(e.x) : FLt(FInt(0), FMul(FInt(a), d(m)[1])) /\ FLt(FInt(0), FMul(FInt(b), d(m)[2])) IN
          IF e.refused \/ R = <<>> THEN Clause(e.refused = (R = <<>> \/ ~e.sym), P, "contours exist exactly for symmetric positive definite covariances", k, 0)
          ELSE Clause(e.sym /\ Len(e.x) = e.n /\ Len(e.y) = e.n /\ \A m \in 1..Len(e.x) : FNear(FDot(d(m), d(m)), FInt(1), FLit("1e-6"), FInt(0)), P, "points of a contour are at distance one", k, 0)
               \cup Clause(quad(1, 1) /\ quad(1, -1) /\ quad(-1, 1) /\ quad(-1, -1), P, "a contour goes around the mean", k, 0)
               \cup Clause(\A h \in 1..2 : FNear(d(1)[h], d(Len(e.x))[h], FLit("1e-6"), FInt(1)), P, "a contour is closed", k, 0)
          : k \in 1..Len(Tr.ell) }
  \cup Clause(Tr.same, P, "utilities leave their arguments unchanged", 0, 0)

Step(j) ==
  CASE Tr.kind = "chain" -> IF j = 0 THEN PanelsErr ELSE IF OwnPanel(j) THEN ChainErr(j) ELSE {}
    [] Tr.kind = "pairs" -> IF j = 0 THEN PairsErr ELSE {}
    [] Tr.kind = "hist" -> IF j = 0 THEN PanelsErr ELSE IF OwnPanel(j)
                           THEN HistErr(j, Tr.panels[j], TRUE) \cup Clause(Tr.panels[j].xlabel = Nm[j], P, "the panel is labelled with the name of the parameter", 0, j) ELSE {}
    [] Tr.kind = "density" -> IF j = 0 THEN PanelsErr ELSE IF OwnPanel(j) THEN DensErr(j) ELSE {}
    [] Tr.kind = "metrics" -> IF j = 0 THEN Clause(Tr.same, P, "plotting leaves the chain and the names unchanged", 0, 0) ELSE MetErr
    [] Tr.kind = "util" -> IF j = 0 THEN EllErr ELSE UtilErr(j)
Init == t \in 1..Len(Traces) /\ i = -1 /\ err = {}
Next == /\ i < NPar /\ i' = i + 1 /\ UNCHANGED t
        /\ err' = err \cup Step(i + 1)
        /\ i' = NPar => PrintT("VERDICT " \o ToString(t) \o " " \o ToString(err'))
Spec == Init /\ [][Next]_vars
===============================================================================
