-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers for TLC.                              *)
(*                                                                         *)
(* TLC has no reals and its integers are 32 bit, so a double is the pair   *)
(* <<hi, lo>> of the two signed 32 bit halves of its bit pattern.  The     *)
(* operators below are evaluated by the Java class F64 (F64.java, same     *)
(* mechanism as TLC's own Integers and Sequences modules); the TLA+ bodies *)
(* are only place holders giving arity.  Everything else in the            *)
(* specification is ordinary TLA+.                                         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Undef == CHOOSE r : r \notin Int

FAdd(a, b)  == Undef     \* a + b
FSub(a, b)  == Undef     \* a - b
FMul(a, b)  == Undef     \* a * b
FDiv(a, b)  == Undef     \* a / b
FNeg(a)     == Undef     \* -a
FAbs(a)     == Undef     \* |a|
FSqrt(a)    == Undef
FExp(a)     == Undef
FLn(a)      == Undef
FPow(a, b)  == Undef     \* a ^ b
FFloor(a)   == Undef
FCos(a)     == Undef
FPhi(a)     == Undef     \* distribution function of the standard normal distribution
FLt(a, b)   == Undef     \* numeric comparison, FALSE on NaN
FLe(a, b)   == Undef
FEq(a, b)   == Undef
FIsNaN(a)   == Undef
FIsInf(a)   == Undef     \* +inf or -inf
FInt(n)     == Undef     \* integer -> double
FToInt(a)   == Undef     \* truncate to integer
FLit(s)     == Undef     \* decimal literal "0.05" -> double
FStr(a)     == Undef     \* shortest decimal string
FDot(u, v)  == Undef     \* sum_i u[i]*v[i] of two equally long sequences
FSum(u)     == Undef     \* sum_i u[i]
FSort(u)    == Undef     \* the elements of a sequence in ascending order
(* |a-b| <= tol * max(scale, |a|, |b|), equal infinities and two NaNs are close *)
FNear(a, b, tol, scale) == Undef
(* n-by-m sequence of rows: upper triangular R with R'R = A, <<>> if not positive definite *)
FChol(A)    == Undef
(* the row vector w with w R = v (R square), <<>> if R is singular *)
FRSolve(v, R) == Undef
=============================================================================
