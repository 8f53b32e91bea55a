-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* Definitions of the statistics of chains (C24).  A column is a sequence  *)
(* of doubles.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

Nr(x) == FInt(x)
Mean(x) == FDiv(FSum(x), Nr(Len(x)))
Dev(x, m) == [i \in 1..Len(x) |-> FSub(x[i], m)]
(* sum of squared deviations from m *)
SqDev(x, m) == LET d == Dev(x, m) IN FDot(d, d)
Var(x, ddof) == FDiv(SqDev(x, Mean(x)), Nr(Len(x) - ddof))
Std(x) == FSqrt(Var(x, 0))
Col(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
(* scale of the numbers of a column: rounding errors are relative to it *)
Scale(x) == LET s == FSort([i \in 1..Len(x) |-> FAbs(x[i])]) IN s[Len(s)]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* ---- batch means ---- *)
BatchSize(n) == MaxI(10, n \div 20)
Batches(n, b) == n \div b
BatchStd(x, b) ==
  LET n == Len(x) nb == Batches(n, b) m == Mean(x)
      y == [k \in 1..nb |-> Mean(SubSeq(x, (k - 1) * b + 1, k * b))] IN
  FSqrt(FMul(FDiv(SqDev(y, m), Nr(nb - 1)), Nr(b)))
MCError(x) == FDiv(BatchStd(x, BatchSize(Len(x))), FSqrt(Nr(Len(x))))

(* ---- Geweke: means of the first and last part against their spectral    *)
(* variance at frequency zero (Hanning windows of a quarter of the part,   *)
(* half overlapping) ---- *)
Pi == FLit("3.141592653589793")
Hanning(nw) == [k \in 1..nw |-> FMul(FLit("0.5"), FSub(FInt(1), FCos(FDiv(FMul(FMul(FInt(2), Pi), FInt(k)), FInt(nw + 1)))))]
Spectral(x) ==
  LET m == Len(x) nw == m \div 4 ov == nw \div 2 w == Hanning(nw)
      k == (m - ov) \div (nw - ov)
      one(i) == LET s == FDot(w, SubSeq(x, (i - 1) * (nw - ov) + 1, (i - 1) * (nw - ov) + nw)) IN FMul(s, s) IN
  FDiv(FSum([i \in 1..k |-> one(i)]), FMul(FInt(k), FDot(w, w)))
(* na rows at the start, the rows after nb at the end *)
GewekeZ(x, na, nb) ==
  LET a == SubSeq(x, 1, na) b == SubSeq(x, nb + 1, Len(x)) IN
  FDiv(FSub(Mean(a), Mean(b)), FSqrt(FAdd(FDiv(Spectral(a), FInt(na)), FDiv(Spectral(b), FInt(Len(x) - nb)))))
GewekeP(z) == FMul(FInt(2), FSub(FInt(1), FPhi(FAbs(z))))
GewekeA(n) == FToInt(FFloor(FMul(FLit("0.1"), FInt(n))))
GewekeB(n) == n - FToInt(FFloor(FMul(FLit("0.5"), FInt(n))))

(* ---- integrated autocorrelation time: Sokal's estimator on the circular *)
(* autocorrelation ---- *)
Rot(d, l) == IF l = 0 THEN d ELSE SubSeq(d, l + 1, Len(d)) \o SubSeq(d, 1, l)
RECURSIVE Iact(_, _, _, _)
(* d deviations, c autocovariance at lag 0, i lag, s running sum; result is *)
(* the first lag at which the sum is negative, <<tau, lag + 1, how clearly the sums had a sign>> *)
Iact(d, c, i, s) ==
  IF i >= Len(d) THEN [tau |-> FInt(0), m |-> 0, last |-> s[2]]
  ELSE LET sn == FSub(FAdd(s[1], FDiv(FDot(d, Rot(d, i)), c)), FDiv(FInt(1), FInt(6)))
           near == IF FLt(FAbs(sn), s[2]) THEN FAbs(sn) ELSE s[2] IN
       IF FLt(sn, FInt(0))
       THEN [tau |-> FMul(FInt(2), FAdd(sn, FDiv(FInt(i), FInt(6)))), m |-> i + 1, last |-> near]
       ELSE Iact(d, c, i + 1, <<sn, near>>)
IactOf(x) == LET d == Dev(x, Mean(x)) IN Iact(d, FDot(d, d), 0, <<FDiv(FInt(-1), FInt(3)), FInt(1)>>)

(* ---- Gelman-Rubin: x is the sequence of the columns of one parameter, one per chain ---- *)
Psrf(x) ==
  LET c == Len(x) n == Len(x[1])
      Bpn == Var([j \in 1..c |-> Mean(x[j])], 1)
      W == Mean([j \in 1..c |-> Var(x[j], 1)])
      S == FAdd(FMul(FDiv(FInt(n - 1), FInt(n)), W), Bpn)
      R2 == FSub(FDiv(FMul(FDiv(FInt(c + 1), FInt(c)), S), W), FDiv(FInt(n - 1), FMul(FInt(c), FInt(n))))
      V == FMul(R2, W)
      B == FMul(Bpn, FInt(n))
      tot == FMul(FInt(c), FInt(n))
      ne == FDiv(FMul(tot, V), B) IN
  [R |-> FSqrt(R2), B |-> B, W |-> W, V |-> V, neff |-> IF FLt(ne, tot) THEN ne ELSE tot]

(* ---- names of the columns of a chain: those of the results, completed by default names ---- *)
DefaultName(k) == "$p_{" \o ToString(k) \o "}$"
Names(given, n) == [j \in 1..n |-> IF j <= Len(given) THEN given[j] ELSE DefaultName(j - 1)]
Distinct(x) == LET s == {x[i] : i \in 1..Len(x)} IN s
=============================================================================
