-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What the diagnostic plots of a chain show (C25) and the definitions of  *)
(* the densities, ranges and contours they are made of.                    *)
(***************************************************************************)
EXTENDS Stats

(* rows shown: every step-th row from the first; long chains are thinned   *)
(* to about maxpoints rows, shorter ones by the requested step             *)
StepOf(skip, maxpoints, n) == IF n > maxpoints THEN n \div maxpoints ELSE skip
RowsShown(n, s) == [k \in 1..((n + s - 1) \div s) |-> (k - 1) * s]        \* counted from 0
At(x, rows) == [k \in 1..Len(rows) |-> x[rows[k] + 1]]

(* grid of panels large enough for n, filled row by row *)
Places(n) == [j \in 1..n |-> j]

(* extreme values *)
MinOf(x) == FSort(x)[1]
MaxOf(x) == FSort(x)[Len(x)]

(* support of a density: slightly more than the range of long chains, four *)
(* standard deviations around the mean of short ones                       *)
GridLo(x) == IF Len(x) > 200 THEN FSub(MinOf(x), FMul(FLit("0.08"), FSub(MaxOf(x), MinOf(x))))
             ELSE FSub(Mean(x), FMul(FInt(4), FSqrt(Var(x, 1))))
GridHi(x) == IF Len(x) > 200 THEN FAdd(MaxOf(x), FMul(FLit("0.08"), FSub(MaxOf(x), MinOf(x))))
             ELSE FAdd(Mean(x), FMul(FInt(4), FSqrt(Var(x, 1))))
GridAt(x, k, n) == FAdd(GridLo(x), FMul(FDiv(FInt(k - 1), FInt(n - 1)), FSub(GridHi(x), GridLo(x))))

(* Gaussian density, kernel density estimate with the normal reference bandwidth *)
TwoPi == FMul(FInt(2), Pi)
Gauss(x, mu, s2) == FDiv(FExp(FDiv(FMul(FSub(x, mu), FSub(x, mu)), FMul(FInt(-2), s2))), FSqrt(FMul(TwoPi, s2)))
Reference(x) == FMul(FMul(FLit("1.06"), Std(x)), FPow(Nr(Len(x)), FLit("-0.2")))
Kde(x, h, at) == FDiv(FSum([i \in 1..Len(x) |-> Gauss(at, x[i], FMul(h, h))]), Nr(Len(x)))

(* interquartile range with quartiles at (n+1)/4 and 3(n+1)/4 *)
At4(s, q) == LET i == q \div 4 f == FDiv(FInt(q % 4), FInt(4)) IN
             IF i >= Len(s) THEN s[Len(s)] ELSE FAdd(FMul(FSub(FInt(1), f), s[i]), FMul(f, s[i + 1]))
Iqr(x) == LET s == FSort(x) n == Len(x) IN FSub(At4(s, 3 * (n + 1)), At4(s, n + 1))
Smaller(a, b) == IF FLt(a, b) THEN a ELSE b
Bandwidth(x) ==
  LET sd == FSqrt(Var(x, 1)) r == Iqr(x)
      w == IF FLt(FInt(0), r) THEN Smaller(sd, FDiv(r, FLit("1.34"))) ELSE sd IN
  FMul(FMul(FLit("1.06"), w), FPow(Nr(Len(x)), FLit("-0.2")))

(* a histogram: equal bins from the smallest to the largest value; a value *)
(* within rounding of an edge may be in either bin                         *)
HistCount(x, lo, hi, eps) == <<Cardinality({i \in 1..Len(x) : FLt(FAdd(lo, eps), x[i]) /\ FLt(x[i], FSub(hi, eps))}),
                               Cardinality({i \in 1..Len(x) : ~FLt(x[i], FSub(lo, eps)) /\ ~FLt(FAdd(hi, eps), x[i])})>>
=============================================================================
