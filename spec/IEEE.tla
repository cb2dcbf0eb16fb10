------------------------------- MODULE IEEE -------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers.  TLC integers are 32 bit and TLC has *)
(* no reals, so a double is represented by the pair <<hi, lo>> of the      *)
(* signed 32-bit halves of its bit pattern.  The operators are bound to    *)
(* Java (spec/java/verif/IEEE.java), where double arithmetic is exactly    *)
(* the round-to-nearest arithmetic of the compiled C code.  The            *)
(* definitions below only fix the arity; TLC never evaluates them.         *)
(***************************************************************************)
LOCAL INSTANCE Integers

FLit(str)       == CHOOSE x : TRUE  \* the double written as str, e.g. "1e-3", "inf"
FOfInt(n)       == CHOOSE x : TRUE  \* integer to double
FAdd(a, b)      == CHOOSE x : TRUE
FSub(a, b)      == CHOOSE x : TRUE
FMul(a, b)      == CHOOSE x : TRUE
FNeg(a)         == CHOOSE x : TRUE
FLt(a, b)       == CHOOSE x : x \in BOOLEAN
FLe(a, b)       == CHOOSE x : x \in BOOLEAN
FAbs(a)         == CHOOSE x : TRUE
FMax(a, b)      == CHOOSE x : TRUE  \* (a < b) ? b : a
FNear(a, b)     == CHOOSE x : x \in BOOLEAN \* equal up to a relative error of 1e-9
FNearAbs(a, b, t) == CHOOSE x : x \in BOOLEAN \* equal up to an absolute error t
\* an upper bound of the number of steps of size h that fit between a and b
FSteps(a, b, h) == CHOOSE x : x \in Nat
FStr(a)         == CHOOSE x : TRUE  \* decimal text, for reports only
\* decimal text of an integer of any size; small integers as TLC integers
IntOf(str)      == CHOOSE x : x \in Int
=============================================================================
