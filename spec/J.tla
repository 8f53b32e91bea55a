---------------------------------- MODULE J ----------------------------------
(***************************************************************************)
(* Traces for TLC.  JEnv(name) reads the JSON file named by an environment *)
(* variable: objects become records, arrays sequences, integers integers,  *)
(* every number written with a fraction, exponent, NaN or Infinity becomes *)
(* a double of module F64, null the value Null (different from everything else). Overridden   *)
(* by J.java.                                                              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL Undef == CHOOSE r : r \notin Int
Null == Undef
JEnv(name) == Undef
JEnvInt(name, default) == Undef
=============================================================================
