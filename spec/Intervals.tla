------------------------------ MODULE Intervals ------------------------------
(***************************************************************************)
(* Propagation of a chain through a model (C23): which rows are used, at   *)
(* which parameter vectors the model is evaluated, how observation noise   *)
(* is added and how quantiles are formed.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

(* full parameter vector of a chain row: fixed entries from the results    *)
FullTheta(theta, parind, row) ==
  [j \in 1..Len(theta) |-> IF \E k \in 1..Len(parind) : parind[k] = j
                           THEN row[CHOOSE k \in 1..Len(parind) : parind[k] = j] ELSE theta[j]]
(* every row once, in order, if at least as many samples as rows are requested *)
AllRows(nsample, nrows) == nsample >= nrows
NSamples(nsample, nrows) == IF AllRows(nsample, nrows) THEN nrows ELSE nsample
(* the row selected by a uniform number, 1-based; <<>> if the product is within rounding of a boundary *)
Picked(u, n) == LET h == FMul(u, FInt(n)) k == FToInt(FFloor(h)) IN
  IF FLt(FSub(h, FInt(k)), FLit("1e-9")) \/ FLt(FSub(FInt(k + 1), h), FLit("1e-9")) THEN <<>> ELSE <<k + 1>>

(* column of the error variances for column c of data set d, given the     *)
(* number of variances and of output columns per data set                  *)
RECURSIVE SumUpTo(_, _)
SumUpTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumUpTo(s, k - 1)
S2Column(ns2, ncols, d, c) ==
  IF ns2 = 1 THEN 1
  ELSE IF ns2 = SumUpTo(ncols, Len(ncols)) THEN SumUpTo(ncols, d - 1) + c
  ELSE d
S2Clear(ns2, ncols) == ns2 = 1 \/ ns2 = SumUpTo(ncols, Len(ncols)) \/ ns2 = Len(ncols)

(* a response with observation noise: additive, on the square root scale, on the log scale *)
Observe(y, s2, z, ty) ==
  LET e == FMul(z, FSqrt(s2)) IN
  CASE ty = 0 -> FAdd(y, e)
    [] ty = 1 -> LET r == FAdd(FSqrt(y), e) IN FMul(r, r)
    [] ty = 2 -> FMul(y, FExp(e))

(* linearly interpolated order statistic *)
Quantile(x, p) ==
  LET s == FSort(x) n == Len(s) h == FMul(FInt(n - 1), p) k == FToInt(FFloor(h)) f == FSub(h, FInt(k)) IN
  IF k + 1 >= n THEN s[n] ELSE FAdd(s[k + 1], FMul(f, FSub(s[k + 2], s[k + 1])))

(* quantiles reported with and without prediction intervals *)
LimitsPI == <<FLit("0.025"), FLit("0.5"), FLit("0.975")>>
LimitsCI == <<FLit("0.005"), FLit("0.025"), FLit("0.05"), FLit("0.25"), FLit("0.5"), FLit("0.75"), FLit("0.95"), FLit("0.975"), FLit("0.995")>>
(* interval of a percentage: from (1-l/100)/2 to (1+l/100)/2 *)
Lower(l) == FSub(FLit("0.5"), FDiv(l, FInt(200)))
Upper(l) == FAdd(FLit("0.5"), FDiv(l, FInt(200)))
=============================================================================
